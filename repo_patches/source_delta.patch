From 0e5f633e235e4c70b04294f75ddb798583bfa2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 01/49] fix: base64 decoding must not leave a freed buffer in
 its output parameter

---
 src/voucher/serialize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 32e0925..ba92a0c 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -242,6 +242,7 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
         } else {
           log_error("Invalid padding");
           sys_free(*out);
+          *out = NULL;
           return -1;
         }
         break;
-- 
2.43.0


From abcbc6980ddf15df07c15329f2ba6c2b7c886bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 02/49] fix: timestamps written with the UTC designator must be
 UTC times

---
 src/utils/os.c | 7 +++----
 src/utils/os.h | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/utils/os.c b/src/utils/os.c
index 59e1639..75bf4e3 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -94,7 +94,6 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len) {
 
 int get_localtime(struct tm *current) {
   time_t ltime;
-  struct tm *newtime;
 
   if (current == NULL) {
     log_error("current is NULL");
@@ -102,11 +101,11 @@ int get_localtime(struct tm *current) {
   }
 
   time(&ltime);
-  if ((newtime = localtime(&ltime)) == NULL) {
-    log_errno("localtime");
+  /* The time is always serialized with the UTC designator ("Z") */
+  if (gmtime_r(&ltime, current) == NULL) {
+    log_errno("gmtime_r");
     return -1;
   }
-  sys_memcpy(current, newtime, sizeof(struct tm));
 
   return 0;
 }
diff --git a/src/utils/os.h b/src/utils/os.h
index b470b74..bd16f82 100644
--- a/src/utils/os.h
+++ b/src/utils/os.h
@@ -175,7 +175,7 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len);
 
 /**
  * @brief Returns the time since Epoch (00:00:00 UTC, January 1, 1970)
- * using localtime
+ * as UTC broken-down time
  *
  * @param current The returned time since Epoch as struct tm
  * @return int 0 on success, -1 on failure
-- 
2.43.0


From c8a53818093a2a77b30fd885f99893a84bb57589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 03/49] fix: overwriting a voucher attribute must release its
 previous value

---
 src/voucher/voucher.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 50084c9..c62faa5 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -182,10 +182,13 @@ static int set_attr_nstr_voucher(struct Voucher *voucher,
   }
 
   if (length < MAX_SERIAL_NUMBER_SIZE) {
-    if ((voucher->serial_number = sys_strndup(value, length)) == NULL) {
+    char *serial_number = sys_strndup(value, length);
+    if (serial_number == NULL) {
       log_errno("sys_strdup");
       return -1;
     }
+    sys_free(voucher->serial_number);
+    voucher->serial_number = serial_number;
   } else {
     log_error("Attribute value exceeds max size");
     return -1;
@@ -215,6 +218,19 @@ int set_attr_str_voucher(struct Voucher *voucher,
                                sys_strnlen_s(value, MAX_SERIAL_NUMBER_SIZE));
 }
 
+static int replace_binary_array(struct BinaryArray *dst,
+                                const struct BinaryArray *src) {
+  struct BinaryArray copy = {0};
+  if (copy_binary_array(&copy, src) < 0) {
+    return -1;
+  }
+
+  free_binary_array_content(dst);
+  *dst = copy;
+
+  return 0;
+}
+
 int set_attr_array_voucher(struct Voucher *voucher,
                            const enum VoucherAttributes attr,
                            const struct BinaryArray *value) {
@@ -230,28 +246,28 @@ int set_attr_array_voucher(struct Voucher *voucher,
 
   switch (attr) {
     case ATTR_IDEVID_ISSUER:
-      if (copy_binary_array(&voucher->idevid_issuer, value) < 0) {
+      if (replace_binary_array(&voucher->idevid_issuer, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PINNED_DOMAIN_CERT:
-      if (copy_binary_array(&voucher->pinned_domain_cert, value) < 0) {
+      if (replace_binary_array(&voucher->pinned_domain_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_NONCE:
-      if (copy_binary_array(&voucher->nonce, value) < 0) {
+      if (replace_binary_array(&voucher->nonce, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PRIOR_SIGNED_VOUCHER_REQUEST:
-      if (copy_binary_array(&voucher->prior_signed_voucher_request, value) <
-          0) {
+      if (replace_binary_array(&voucher->prior_signed_voucher_request,
+                               value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PROXIMITY_REGISTRAR_CERT:
-      if (copy_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
+      if (replace_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
-- 
2.43.0


From 483169ff3593e6a89767480a8b7a67e470d86dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 04/49] fix: voucher strings must be JSON escaped and unescaped

---
 src/voucher/serialize.c | 140 +++++++++++++++++++++++++++++++++++++++-
 src/voucher/serialize.h |  14 +++-
 src/voucher/voucher.c   |  11 +++-
 3 files changed, 159 insertions(+), 6 deletions(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index ba92a0c..e26a9d5 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -385,14 +385,148 @@ char *serialize_escapestr(const char *str) {
   }
 
   size_t length = strlen(str);
-  /* ""(2 chars) + \0 (1 char) = 3 chars*/
-  char *serialized = sys_malloc(length + 3);
+  /* every char as \uXXXX (6 chars) + ""(2 chars) + \0 (1 char) */
+  char *serialized = sys_malloc(length * 6 + 3);
 
   if (serialized == NULL) {
     log_errno("sys_malloc");
     return NULL;
   }
-  sprintf(serialized, "\"%s\"", str);
+
+  char *pos = serialized;
+  *pos++ = '"';
+  for (; *str != '\0'; str++) {
+    if (*str == '"' || *str == '\\') {
+      *pos++ = '\\';
+      *pos++ = *str;
+    } else if ((unsigned char)*str < 0x20) {
+      pos += sprintf(pos, "\\u%04x", (unsigned char)*str);
+    } else {
+      *pos++ = *str;
+    }
+  }
+  *pos++ = '"';
+  *pos = '\0';
 
   return serialized;
 }
+
+static int unescape_hex4(const char *str, const size_t length,
+                         uint32_t *code) {
+  if (length < 4) {
+    return -1;
+  }
+
+  *code = 0;
+  for (size_t idx = 0; idx < 4; idx++) {
+    const int ch = tolower((unsigned char)str[idx]);
+    if (!isxdigit(ch)) {
+      return -1;
+    }
+    *code = (*code << 4) | (uint32_t)(isdigit(ch) ? ch - '0' : ch - 'a' + 10);
+  }
+
+  return 0;
+}
+
+char *serialize_unescapestr(const char *str, const size_t length) {
+  if (str == NULL) {
+    log_error("str param is NULL");
+    return NULL;
+  }
+
+  /* The unescaped string is never longer than the escaped one */
+  char *unescaped = sys_malloc(length + 1);
+  if (unescaped == NULL) {
+    log_errno("sys_malloc");
+    return NULL;
+  }
+
+  char *pos = unescaped;
+  const char *const end = str + length;
+  while (str < end) {
+    uint32_t code = 0, low = 0;
+
+    if (*str != '\\') {
+      if (*str == '\0') {
+        goto serialize_unescapestr_fail;
+      }
+      *pos++ = *str++;
+      continue;
+    }
+
+    if (++str == end) {
+      goto serialize_unescapestr_fail;
+    }
+
+    switch (*str++) {
+      case '"':
+        *pos++ = '"';
+        continue;
+      case '\\':
+        *pos++ = '\\';
+        continue;
+      case '/':
+        *pos++ = '/';
+        continue;
+      case 'b':
+        *pos++ = '\b';
+        continue;
+      case 'f':
+        *pos++ = '\f';
+        continue;
+      case 'n':
+        *pos++ = '\n';
+        continue;
+      case 'r':
+        *pos++ = '\r';
+        continue;
+      case 't':
+        *pos++ = '\t';
+        continue;
+      case 'u':
+        break;
+      default:
+        goto serialize_unescapestr_fail;
+    }
+
+    if (unescape_hex4(str, (size_t)(end - str), &code) < 0 || code == 0) {
+      goto serialize_unescapestr_fail;
+    }
+    str += 4;
+
+    if (code >= 0xD800 && code <= 0xDFFF) {
+      /* UTF-16 surrogate pair */
+      if (code > 0xDBFF || end - str < 6 || str[0] != '\\' || str[1] != 'u' ||
+          unescape_hex4(str + 2, 4, &low) < 0 || low < 0xDC00 || low > 0xDFFF) {
+        goto serialize_unescapestr_fail;
+      }
+      str += 6;
+      code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+    }
+
+    if (code < 0x80) {
+      *pos++ = (char)code;
+    } else if (code < 0x800) {
+      *pos++ = (char)(0xC0 | (code >> 6));
+      *pos++ = (char)(0x80 | (code & 0x3F));
+    } else if (code < 0x10000) {
+      *pos++ = (char)(0xE0 | (code >> 12));
+      *pos++ = (char)(0x80 | ((code >> 6) & 0x3F));
+      *pos++ = (char)(0x80 | (code & 0x3F));
+    } else {
+      *pos++ = (char)(0xF0 | (code >> 18));
+      *pos++ = (char)(0x80 | ((code >> 12) & 0x3F));
+      *pos++ = (char)(0x80 | ((code >> 6) & 0x3F));
+      *pos++ = (char)(0x80 | (code & 0x3F));
+    }
+  }
+  *pos = '\0';
+
+  return unescaped;
+
+serialize_unescapestr_fail:
+  log_error("Invalid escaped string");
+  sys_free(unescaped);
+  return NULL;
+}
diff --git a/src/voucher/serialize.h b/src/voucher/serialize.h
index b73294e..4a88587 100644
--- a/src/voucher/serialize.h
+++ b/src/voucher/serialize.h
@@ -100,7 +100,7 @@ int serialize_str2time(const char *str, const struct tm *tm);
 __must_sys_free char *serialize_localtime(void);
 
 /**
- * @brief Adds "" to a string
+ * @brief Encodes a string to a JSON string, enclosed in ""
  *
  * Caller is responsible for freeing the string
  *
@@ -109,6 +109,18 @@ __must_sys_free char *serialize_localtime(void);
  */
 __must_sys_free char *serialize_escapestr(const char *str);
 
+/**
+ * @brief Decodes the escape sequences of a JSON string
+ *
+ * Caller is responsible for freeing the output string
+ *
+ * @param str The JSON string content, without the enclosing quotes
+ * @param length The JSON string content length
+ * @return char * the decoded string, NULL on failure
+ */
+__must_sys_free char *serialize_unescapestr(const char *str,
+                                            const size_t length);
+
 /**
  * @brief Encodes a key/value list to a json
  * Example:
diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index c62faa5..c84a346 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -750,8 +750,15 @@ static int set_keyvalue_voucher(struct Voucher *voucher, const char *key,
     }
   } else if (check_size_str_equal(attr_names[ATTR_SERIAL_NUMBER], key,
                                   key_length)) {
-    if (set_attr_nstr_voucher(voucher, ATTR_SERIAL_NUMBER, value,
-                              value_length) < 0) {
+    char *serial_number = serialize_unescapestr(value, value_length);
+    if (serial_number == NULL) {
+      log_error("serialize_unescapestr fail");
+      return -1;
+    }
+    int res = set_attr_nstr_voucher(voucher, ATTR_SERIAL_NUMBER, serial_number,
+                                    strlen(serial_number));
+    sys_free(serial_number);
+    if (res < 0) {
       log_error("set_attr_nstr_voucher fail");
       return -1;
     }
-- 
2.43.0


From d92094762915a4e7887d6d63b2a086477fcb179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 05/49] fix: voucher parsing must match the exact root key and
 reject nested values

---
 src/voucher/voucher.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index c84a346..87c3d34 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -842,20 +842,31 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   }
 
   struct Voucher *voucher = init_voucher();
+  if (voucher == NULL) {
+    log_error("init_voucher fail");
+    return NULL;
+  }
+
   bool found_root = false;
 
   for (int idx = 1; idx < count; idx++) {
-    int length = tokens[idx].end - tokens[idx].start;
+    size_t length = tokens[idx].end - tokens[idx].start;
     /* Find the voucher root key */
-    if (strncmp(VOUCHER_ROOT_NAME, (char *)(json + tokens[idx].start),
-                length) == 0) {
+    if (tokens[idx].type == JSMN_STRING &&
+        check_size_str_equal(VOUCHER_ROOT_NAME,
+                             (char *)(json + tokens[idx].start), length)) {
       idx++;
       if (idx < count && tokens[idx].type == JSMN_OBJECT) {
         /* Iterate over all the key/value pairs of the voucher root */
         for (int j = 0; j < tokens[idx].size; j++) {
           int key_idx = idx + (j * 2) + 1;
           int value_idx = idx + (j * 2 + 1) + 1;
-          if (key_idx < count && value_idx < count) {
+          /* Every attribute has a single value, nesting is not allowed */
+          if (key_idx < count && value_idx < count &&
+              tokens[key_idx].type == JSMN_STRING &&
+              tokens[key_idx].size == 1 && tokens[value_idx].size == 0 &&
+              tokens[value_idx].type != JSMN_OBJECT &&
+              tokens[value_idx].type != JSMN_ARRAY) {
             jsmntok_t *key_token = &tokens[key_idx];
             jsmntok_t *value_token = &tokens[value_idx];
             size_t key_length = key_token->end - key_token->start;
-- 
2.43.0


From 2cf51a51725f28d9a6acb830ef50a3af73a2a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 06/49] fix: CMS signers belong to the message and must not be
 released

---
 src/voucher/crypto_ossl.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7b13840..f64e5b6 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1570,14 +1570,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   int length = sk_X509_num(signers);
 
   if (!length) {
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return 0;
   }
 
   *out_certs = init_array_list();
   if (*out_certs == NULL) {
     log_error("init_buffer_list fail");
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return -1;
   }
 
@@ -1588,7 +1588,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     if (cert_length < 0) {
       log_error("cert_to_derbuf fail");
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
@@ -1596,14 +1596,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
       log_error("push_buffer_list fail");
       sys_free(cert);
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
     sys_free(cert);
   }
 
-  sk_X509_pop_free(signers, X509_free);
+  sk_X509_free(signers);
   return 0;
 }
 
-- 
2.43.0


From 4df83a9c475a78b26bf33adbf8f6b06c65a2cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 07/49] fix: certificates revoked by a CRL in the store must be
 refused

---
 src/voucher/crypto_ossl.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index f64e5b6..fe6853a 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1227,6 +1227,15 @@ void free_x509_store(X509_STORE *store, struct ptr_list *x509_store_list) {
   free_ptr_list(x509_store_list, free_x509_store_cert);
 }
 
+/* Authorities without a CRL in the store are not subject to revocation */
+static int verify_store_crl(int ok, X509_STORE_CTX *ctx) {
+  if (!ok && X509_STORE_CTX_get_error(ctx) == X509_V_ERR_UNABLE_TO_GET_CRL) {
+    return 1;
+  }
+
+  return ok;
+}
+
 static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
                                          struct ptr_list **x509_store_list) {
   *x509_store_list = NULL;
@@ -1284,6 +1293,11 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
         return NULL;
       }
 
+      /* The CRLs are not used unless the checks are enabled */
+      X509_STORE_set_flags(x509_store,
+                           X509_V_FLAG_CRL_CHECK | X509_V_FLAG_CRL_CHECK_ALL);
+      X509_STORE_set_verify_cb(x509_store, verify_store_crl);
+
       ptr = (void *)x509_crl;
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
-- 
2.43.0


From 156a206f4e6ef68ed51ff8601493ef5a86f998fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 08/49] fix: certificate verification must check the signatures
 of the chain

---
 src/voucher/crypto_ossl.c | 41 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index fe6853a..977c606 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1310,6 +1310,43 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
+/* X509_build_chain selects the issuers by name only, so check that every
+   certificate of the chain was signed with the key of the next one */
+static int verify_chain_signatures(STACK_OF(X509) *chain) {
+  for (int idx = 0; idx + 1 < sk_X509_num(chain); idx++) {
+    EVP_PKEY *pkey = X509_get0_pubkey(sk_X509_value(chain, idx + 1));
+    if (pkey == NULL || X509_verify(sk_X509_value(chain, idx), pkey) != 1) {
+      log_error("X509_verify fail with code=%s",
+                ERR_error_string(ERR_get_error(), NULL));
+      return -1;
+    }
+  }
+
+  return 0;
+}
+
+/* Without trusted certificates, the certificate has to be signed by one of the
+   given certificates, or to be one of them */
+static int verify_cert_issuer(X509 *x509, STACK_OF(X509) *certs) {
+  for (int idx = 0; idx < sk_X509_num(certs); idx++) {
+    X509 *issuer = sk_X509_value(certs, idx);
+    EVP_PKEY *pkey = X509_get0_pubkey(issuer);
+
+    if (X509_cmp(x509, issuer) == 0) {
+      return 0;
+    }
+
+    if (X509_NAME_cmp(X509_get_issuer_name(x509),
+                      X509_get_subject_name(issuer)) == 0 &&
+        pkey != NULL && X509_verify(x509, pkey) == 1) {
+      return 0;
+    }
+  }
+
+  log_error("no issuer found");
+  return -1;
+}
+
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store) {
@@ -1360,6 +1397,10 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   if (sk_X509_num(out_cert_stack) < 1) {
     log_error("cert stack is empty");
     ret = -1;
+  } else if (cert_store != NULL) {
+    ret = verify_chain_signatures(out_cert_stack);
+  } else {
+    ret = verify_cert_issuer(x509, cert_stack);
   }
 
   free_x509_store(cert_store, x509_store_list);
-- 
2.43.0


From 3558695d0f028f8d834cc3bc911a73ba904d464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 09/49] fix: the pinned domain certificate must authenticate
 the registrar

---
 src/voucher/request.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 59bab6b..8296fde 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -555,6 +555,15 @@ int verify_masa_pledge_voucher(
     free_binary_array_content(&cert_copy);
 
     if (crypto_verify_cert(registrar_tls_cert->array,
+                           registrar_tls_cert->length, intermediate_certs,
+                           NULL) < 0) {
+      log_error("registrar not authenticated by the pinned-domain-cert");
+      free_array_list(intermediate_certs);
+      goto verify_masa_pledge_voucher_fail;
+    }
+
+    if (domain_store != NULL &&
+        crypto_verify_cert(registrar_tls_cert->array,
                            registrar_tls_cert->length, intermediate_certs,
                            domain_store) < 0) {
       log_error("crypto_verify_cert fail");
-- 
2.43.0


From 409ee33489a12de525b7f4c86dd90b376915a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 10/49] fix: verified certificate chains must end in a trusted
 certificate

---
 src/voucher/crypto_ossl.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 977c606..c13d5be 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1310,9 +1310,10 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
-/* X509_build_chain selects the issuers by name only, so check that every
-   certificate of the chain was signed with the key of the next one */
-static int verify_chain_signatures(STACK_OF(X509) *chain) {
+/* X509_build_chain selects the issuers by name only and may return an incomplete
+   chain, so check that every certificate was signed with the key of the next
+   one and that the last one is trusted */
+static int verify_chain_signatures(STACK_OF(X509) *chain, X509_STORE *store) {
   for (int idx = 0; idx + 1 < sk_X509_num(chain); idx++) {
     EVP_PKEY *pkey = X509_get0_pubkey(sk_X509_value(chain, idx + 1));
     if (pkey == NULL || X509_verify(sk_X509_value(chain, idx), pkey) != 1) {
@@ -1322,7 +1323,17 @@ static int verify_chain_signatures(STACK_OF(X509) *chain) {
     }
   }
 
-  return 0;
+  X509 *last = sk_X509_value(chain, sk_X509_num(chain) - 1);
+  STACK_OF(X509_OBJECT) *objects = X509_STORE_get0_objects(store);
+  for (int idx = 0; idx < sk_X509_OBJECT_num(objects); idx++) {
+    X509 *trusted = X509_OBJECT_get0_X509(sk_X509_OBJECT_value(objects, idx));
+    if (trusted != NULL && X509_cmp(last, trusted) == 0) {
+      return 0;
+    }
+  }
+
+  log_error("chain doesn't end in a trusted certificate");
+  return -1;
 }
 
 /* Without trusted certificates, the certificate has to be signed by one of the
@@ -1387,7 +1398,7 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   }
 
   STACK_OF(X509) *out_cert_stack =
-      X509_build_chain(x509, cert_stack, cert_store, 0, NULL, NULL);
+      X509_build_chain(x509, cert_stack, cert_store, 1, NULL, NULL);
   if (out_cert_stack == NULL) {
     log_error("X509_build_chain fail");
   }
@@ -1398,7 +1409,7 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
     log_error("cert stack is empty");
     ret = -1;
   } else if (cert_store != NULL) {
-    ret = verify_chain_signatures(out_cert_stack);
+    ret = verify_chain_signatures(out_cert_stack, cert_store);
   } else {
     ret = verify_cert_issuer(x509, cert_stack);
   }
-- 
2.43.0


From a8f5281209199c17021d6aa9c9c7a6879db6dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 11/49] fix: every occurrence of a repeated certificate list
 key must be read

---
 src/brski/config.c | 69 +++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index d109f39..ace0cc8 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <minIni.h>
 #include <string.h>
+#include <strings.h>
 #include <unistd.h>
 
 #include "config.h"
@@ -31,50 +32,54 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+struct config_value_list {
+  const char *section;
+  const char *key;
+  struct BinaryArrayList *values;
+  int error;
+};
+
+static int add_config_value(const char *section, const char *key,
+                            const char *value, void *user_data) {
+  struct config_value_list *ctx = (struct config_value_list *)user_data;
+
+  if (strcasecmp(section, ctx->section) != 0 || strcmp(key, ctx->key) != 0 ||
+      !strlen(value)) {
+    return 1;
+  }
+
+  if (push_array_list(ctx->values, (uint8_t *const)value, strlen(value) + 1,
+                      0) < 0) {
+    log_error("push_array_list fail");
+    ctx->error = -1;
+    return 0;
+  }
+
+  return 1;
+}
+
 int load_config_value_list(const char *section, const char *key,
                            const char *filename,
                            struct BinaryArrayList **value_list) {
-  *value_list = NULL;
-  int idx = 0;
+  struct config_value_list ctx = {
+      .section = section, .key = key, .values = NULL, .error = 0};
 
-  char *store = NULL;
-  if ((store = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-    log_errno("sys_zalloc");
-    return -1;
-  }
+  *value_list = NULL;
 
-  if ((*value_list = init_array_list()) == NULL) {
+  if ((ctx.values = init_array_list()) == NULL) {
     log_error("init_array_list fail");
-    sys_free(store);
     return -1;
   }
 
-  while (ini_getkey(section, idx++, store, MAX_CONFIG_VALUE_SIZE, filename) >
-         0) {
-    char *value = NULL;
-    if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-      log_errno("sys_zalloc");
-      sys_free(store);
-      free_array_list(*value_list);
-      return -1;
-    }
-
-    ini_gets(section, store, "", value, INI_BUFFERSIZE, filename);
-
-    if (strcmp(store, key) == 0 && strlen(value)) {
-      if (push_array_list(*value_list, (uint8_t *const)value, strlen(value) + 1,
-                          0) < 0) {
-        sys_free(value);
-        sys_free(store);
-        free_array_list(*value_list);
-        return -1;
-      }
-    }
+  // a key can repeat, and every occurrence has a value of its own
+  ini_browse(add_config_value, &ctx, filename);
 
-    sys_free(value);
+  if (ctx.error < 0) {
+    free_array_list(ctx.values);
+    return -1;
   }
 
-  sys_free(store);
+  *value_list = ctx.values;
   return 0;
 }
 
-- 
2.43.0


From 2482cc7f59e42a9f1911b2deac8d605137e7c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 12/49] fix: a failed certificate list load must not leave a
 freed list behind

---
 src/brski/config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index ace0cc8..6060948 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -699,6 +699,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
       log_error("file_to_x509buf fail");
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
 
@@ -706,6 +707,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
       log_error("push_array_list fail");
       free_binary_array(cert);
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
     free_binary_array(cert);
-- 
2.43.0


From c2066a58132af31441b59dafb088c16e69b507ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 13/49] fix: a file that could not be written completely must
 be reported

---
 src/voucher/crypto_ossl.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index c13d5be..7a818da 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -166,6 +166,14 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
     return -1;
   }
 
+  if (BIO_flush(out) <= 0) {
+    log_error("BIO_flush fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    BIO_free(out);
+    CMS_ContentInfo_free(content);
+    return -1;
+  }
+
   BIO_free(out);
   CMS_ContentInfo_free(content);
   return 0;
@@ -195,8 +203,13 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   X509_free(x509);
+
+  if (fclose(fp) != 0) {
+    log_errno("Couldn't write %s file.", filename);
+    return -1;
+  }
+
   return 0;
 }
 
@@ -224,8 +237,13 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   EVP_PKEY_free(pkey);
+
+  if (fclose(fp) != 0) {
+    log_errno("Couldn't write %s file.", filename);
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 9859d779d03c3a6d6435e9917a4a74860c7f0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 14/49] fix: a voucher time attribute without a value must be
 refused

---
 src/voucher/voucher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 87c3d34..1650859 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -115,6 +115,11 @@ int set_attr_time_voucher(struct Voucher *voucher,
     return -1;
   }
 
+  if (value == NULL) {
+    log_error("value param is NULL");
+    return -1;
+  }
+
   switch (attr) {
     case ATTR_CREATED_ON:
       sys_memcpy(&voucher->created_on, value, sizeof(struct tm));
-- 
2.43.0


From c85eebfb7b26d560cf768e593541d1df7cc43522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 15/49] fix: a pledge request without a serial number must be
 refused, not dereferenced

---
 src/voucher/request.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 8296fde..61a493a 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -136,6 +136,12 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
     return NULL;
   }
 
+  if (*pledge_serial_number == NULL) {
+    log_error("serial-number is missing");
+    free_voucher(pledge_voucher_request);
+    return NULL;
+  }
+
   if (strcmp(*pledge_serial_number, serial_number) != 0) {
     log_error("wrong pledge voucher serial-number");
     free_voucher(pledge_voucher_request);
-- 
2.43.0


From 903c9c917e051bf3206493d4f9cf7544b41f26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 16/49] fix: the MASA must refuse a registrar request with
 another nonce than the pledge's

---
 src/voucher/request.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 61a493a..91cbce0 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -351,6 +351,16 @@ struct BinaryArray *sign_masa_pledge_voucher(
     goto sign_masa_pledge_voucher_fail;
   }
 
+  /* The nonce of the pledge, if any, has to be the one the registrar states */
+  if (is_attr_voucher_nonempty(pledge_voucher_request, ATTR_NONCE)) {
+    const struct BinaryArray *pledge_nonce =
+        get_attr_array_voucher(pledge_voucher_request, ATTR_NONCE);
+    if (compare_binary_array(pledge_nonce, nonce) < 1) {
+      log_error("pledge voucher nonce differs from voucher request nonce");
+      goto sign_masa_pledge_voucher_fail;
+    }
+  }
+
   if ((masa_pledge_voucher = init_voucher()) == NULL) {
     log_error("init_voucher fail");
     goto sign_masa_pledge_voucher_fail;
-- 
2.43.0


From 9bc637cd5170d0ff973715c5c18fa9fb30e608a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 17/49] fix: a refused voucher must not leave its signer list
 allocated

---
 src/voucher/voucher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 1650859..f2d6e29 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -1074,6 +1074,10 @@ struct Voucher *verify_cms_voucher(const struct BinaryArray *cms,
   if (voucher == NULL) {
     log_error("deserialize_voucher fail");
     sys_free(data);
+    if (out_certs != NULL) {
+      free_array_list(*out_certs);
+      *out_certs = NULL;
+    }
     return NULL;
   }
 
-- 
2.43.0


From 912f5b8a63287dcd3106cab7f926b7b632e79fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 18/49] fix: voucher verification without a registrar
 certificate must be refused

---
 src/voucher/request.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 91cbce0..50be816 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -476,6 +476,11 @@ int verify_masa_pledge_voucher(
     return -1;
   }
 
+  if (registrar_tls_cert == NULL) {
+    log_error("registrar_tls_cert param is NULL");
+    return -1;
+  }
+
   /* The pledge MUST verify the voucher signature using the
    * manufacturer-installed trust anchor(s) associated with the manufacturer's
    * MASA (this is likely included in the pledge's firmware). Management of the
@@ -564,6 +569,7 @@ int verify_masa_pledge_voucher(
     if (push_array_list(intermediate_certs, cert_copy.array, cert_copy.length,
                         0) < 0) {
       log_error("push_array_list fail");
+      free_binary_array_content(&cert_copy);
       free_array_list(intermediate_certs);
       goto verify_masa_pledge_voucher_fail;
     }
-- 
2.43.0


From 64d8e893345c1b68fb1cd53aaeaef8350d975a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 19/49] fix: the MASA must keep a request's state out of the
 context shared by all requests

---
 src/brski/masa/masa_api.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 4782073..ee3d786 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -63,6 +63,10 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct registrar_config *rconf = context->rconf;
   struct masa_config *mconf = context->mconf;
 
+  /* The server context is shared by all requests */
+  struct MasaContext request_context = *context;
+  request_context.ldevid_ca_cert = NULL;
+
   struct BinaryArray voucher_request_cms = {};
   struct BinaryArray *masa_sign_cert = NULL;
   struct BinaryArray *masa_sign_key = NULL;
@@ -91,8 +95,8 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((context->ldevid_ca_cert = file_to_x509buf(mconf->ldevid_ca_cert_path)) ==
-      NULL) {
+  if ((request_context.ldevid_ca_cert =
+           file_to_x509buf(mconf->ldevid_ca_cert_path)) == NULL) {
     log_error("file_to_x509buf fail");
     goto masa_requestvoucher_fail;
   }
@@ -136,7 +140,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   }
 
   masa_pledge_voucher = sign_masa_pledge_voucher(
-      &voucher_request_cms, &expires_on, voucher_req_cb, user_ctx,
+      &voucher_request_cms, &expires_on, voucher_req_cb, &request_context,
       masa_sign_cert, masa_sign_key, registrar_verify_certs,
       registrar_store_certs, pledge_verify_certs, pledge_store_certs,
       additional_masa_certs);
@@ -156,7 +160,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   response.assign((char *)base64);
 
   sys_free(base64);
-  free_binary_array(context->ldevid_ca_cert);
+  free_binary_array(request_context.ldevid_ca_cert);
   free_binary_array(masa_sign_key);
   free_binary_array(masa_sign_cert);
   free_array_list(registrar_verify_certs);
@@ -169,7 +173,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   return 200;
 
 masa_requestvoucher_fail:
-  free_binary_array(context->ldevid_ca_cert);
+  free_binary_array(request_context.ldevid_ca_cert);
   free_binary_array(masa_sign_cert);
   free_binary_array(masa_sign_key);
   free_array_list(registrar_verify_certs);
-- 
2.43.0


From 3adef277694dcff5b97c6e688a806b176397a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 20/49] fix: the registrar must report a refusal by the MASA
 instead of an empty voucher

---
 src/brski/registrar/registrar_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 60d8e10..a663cc5 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -118,7 +118,7 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
     return -1;
   }
 
-  if (status >= 400) {
+  if (status < 200 || status >= 300) {
     log_error("https_post_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
@@ -291,7 +291,7 @@ int registrar_requestvoucher(const RequestHeader &request_header,
     return 400;
   }
 
-  if (post_voucher_request(voucher_request_cms.get(), mconf, rconf, response) <
+  if (post_voucher_request(voucher_request_cms.get(), mconf, rconf, response) !=
       0) {
     log_error("post_voucher_request fail");
     response.assign(
-- 
2.43.0


From 2ae9200bec7e8494adb2a48385fcd953aebb268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 21/49] fix: an audit log entry must stay on one line whatever
 the serial number

---
 src/brski/registrar/registrar_api.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index a663cc5..eb5546f 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -71,14 +71,27 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   char *lserial = crypto_getcert_serial(&lmeta);
 
+  /* The serial numbers can contain any text, also quotes and line ends */
+  char *iserial_str = serialize_escapestr((iserial != NULL) ? iserial : "NULL");
+  char *lserial_str = serialize_escapestr((lserial != NULL) ? lserial : "NULL");
+
   FILE *f = fopen(log_path, "a");
-  if (f != NULL) {
-    fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n", time(NULL),
-            imeta.serial_number, (iserial != NULL) ? iserial : "NULL",
-            lmeta.serial_number, (lserial != NULL) ? lserial : "NULL");
+  if (f == NULL) {
+    log_errno("fopen fail");
+  } else if (iserial_str == NULL || lserial_str == NULL) {
+    log_error("serialize_escapestr fail");
     fclose(f);
   } else {
-    log_errno("fopen fail");
+    fprintf(f, "%lu 0x%" PRIx64 " %s 0x%" PRIx64 " %s\n", time(NULL),
+            imeta.serial_number, iserial_str, lmeta.serial_number, lserial_str);
+    fclose(f);
+  }
+
+  if (iserial_str != NULL) {
+    sys_free(iserial_str);
+  }
+  if (lserial_str != NULL) {
+    sys_free(lserial_str);
   }
 
   free_keyvalue_list(imeta.issuer);
-- 
2.43.0


From 0564fe7a016689c64a43aa533366283f432a0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 22/49] fix: the nonce must not be released twice when it
 cannot be decoded

---
 src/brski/pledge/pledge_request.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 5f57818..f3c0c59 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -52,7 +52,6 @@ int verify_masa_pledge_request(struct pledge_config *pconf,
                                             strlen(pconf->nonce),
                                             &nonce->array)) < 0) {
       log_errno("serialize_base64str2array fail");
-      free_binary_array(nonce);
       goto verify_masa_pledge_request_fail;
     }
     nonce->length = length;
-- 
2.43.0


From 5aa33b950a15e1d91f49748df3dfdb376da82435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 23/49] fix: a server that fails to start must release the
 server, not the pointer to it

---
 src/brski/http/httplib_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index ee56be0..b477cbf 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -228,7 +228,8 @@ int httplib_start(struct http_config *config,
     server->listen(config->bind_address, config->port);
   } catch (...) {
     log_error("httplib::SSLServer() fail");
-    httplib_stop(srv_ctx);
+    httplib_stop(*srv_ctx);
+    *srv_ctx = nullptr;
     return -1;
   }
 
-- 
2.43.0


From 55bb240d5a9d67a1dd9b418498d6ff7384f88a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 24/49] fix: a server that cannot load its certificate or
 listen must report failure

---
 src/brski/http/httplib_wrapper.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index b477cbf..ec49ca3 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -211,6 +211,12 @@ int httplib_start(struct http_config *config,
         new httplib::SSLServer(config->tls_cert_path, config->tls_key_path,
                                config->client_ca_cert_path);
 
+    if (!server->is_valid()) {
+      log_error("invalid TLS certificate or key");
+      delete server;
+      return -1;
+    }
+
     if (httplib_register_routes(server, routes, user_ctx) < 0) {
       log_error("httplib_register_routes fail");
       delete server;
@@ -225,7 +231,10 @@ int httplib_start(struct http_config *config,
     log_info("Starting the HTTPS server at %s:%d", config->bind_address,
              config->port);
 
-    server->listen(config->bind_address, config->port);
+    if (!server->listen(config->bind_address, config->port)) {
+      log_error("listen fail");
+      return -1;
+    }
   } catch (...) {
     log_error("httplib::SSLServer() fail");
     httplib_stop(*srv_ctx);
-- 
2.43.0


From 626e5cd832d371f59a4029a8cf0a2b84b1f1b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 25/49] fix: a date-time followed by other text must be refused

---
 src/voucher/serialize.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index e26a9d5..33ec05f 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -353,7 +353,9 @@ int serialize_str2time(const char *str, const struct tm *tm) {
 
   sys_memset((void *)tm, 0, sizeof(struct tm));
 
-  if (strptime(str, "%Y-%m-%dT%H:%M:%SZ", (struct tm *)tm) == NULL) {
+  const char *end = strptime(str, "%Y-%m-%dT%H:%M:%SZ", (struct tm *)tm);
+
+  if (end == NULL || *end != '\0') {
     log_error("strptime fail");
     return -1;
   }
-- 
2.43.0


From 014f44067a469e22376877da878ad9fc2caae6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 26/49] fix: every JSON string of a voucher can hold escapes

---
 src/voucher/voucher.c | 48 ++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index f2d6e29..bac7259 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -755,15 +755,8 @@ static int set_keyvalue_voucher(struct Voucher *voucher, const char *key,
     }
   } else if (check_size_str_equal(attr_names[ATTR_SERIAL_NUMBER], key,
                                   key_length)) {
-    char *serial_number = serialize_unescapestr(value, value_length);
-    if (serial_number == NULL) {
-      log_error("serialize_unescapestr fail");
-      return -1;
-    }
-    int res = set_attr_nstr_voucher(voucher, ATTR_SERIAL_NUMBER, serial_number,
-                                    strlen(serial_number));
-    sys_free(serial_number);
-    if (res < 0) {
+    if (set_attr_nstr_voucher(voucher, ATTR_SERIAL_NUMBER, value,
+                              value_length) < 0) {
       log_error("set_attr_nstr_voucher fail");
       return -1;
     }
@@ -823,6 +816,34 @@ static int set_keyvalue_voucher(struct Voucher *voucher, const char *key,
   return 0;
 }
 
+static int set_escaped_voucher(struct Voucher *voucher, const char *key,
+                               const size_t key_length, const char *value,
+                               const size_t value_length) {
+  int res = -1;
+  char *key_str = serialize_unescapestr(key, key_length);
+  char *value_str = serialize_unescapestr(value, value_length);
+
+  if (key_str == NULL || value_str == NULL) {
+    log_error("serialize_unescapestr fail");
+  } else {
+    res = set_keyvalue_voucher(voucher, key_str, strlen(key_str), value_str,
+                               strlen(value_str));
+  }
+
+  sys_free(key_str);
+  sys_free(value_str);
+  return res;
+}
+
+static bool is_root_name(const char *key, const size_t key_length) {
+  char *name = serialize_unescapestr(key, key_length);
+  bool res = name != NULL &&
+             check_size_str_equal(VOUCHER_ROOT_NAME, name, strlen(name));
+
+  sys_free(name);
+  return res;
+}
+
 struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   if (json == NULL) {
     log_error("json param is NULL");
@@ -858,8 +879,7 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
     size_t length = tokens[idx].end - tokens[idx].start;
     /* Find the voucher root key */
     if (tokens[idx].type == JSMN_STRING &&
-        check_size_str_equal(VOUCHER_ROOT_NAME,
-                             (char *)(json + tokens[idx].start), length)) {
+        is_root_name((char *)(json + tokens[idx].start), length)) {
       idx++;
       if (idx < count && tokens[idx].type == JSMN_OBJECT) {
         /* Iterate over all the key/value pairs of the voucher root */
@@ -878,9 +898,9 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
             size_t value_length = value_token->end - value_token->start;
             const char *key = (char *)(json + key_token->start);
             const char *value = (char *)(json + value_token->start);
-            if (set_keyvalue_voucher(voucher, key, key_length, value,
-                                     value_length) < 0) {
-              log_trace("set_keyvalue_voucher fail");
+            if (set_escaped_voucher(voucher, key, key_length, value,
+                                    value_length) < 0) {
+              log_trace("set_escaped_voucher fail");
               goto deserialize_voucher_fail;
             }
           } else {
-- 
2.43.0


From 76309d0ff6c201136e8023d214aa7535c6dd931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 27/49] fix: releasing a list element that was never added must
 not fault

---
 src/voucher/array.c    | 2 ++
 src/voucher/keyvalue.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 219b92e..8e710e6 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -73,6 +73,8 @@ int push_array_list(struct BinaryArrayList *arr_list, uint8_t *const arr,
     return -1;
   }
 
+  dl_list_init(&el->list, (void *)el);
+
   if ((el->arr = sys_memdup(arr, length)) == NULL) {
     log_errno("sys_memdup");
     free_array_list_el(el);
diff --git a/src/voucher/keyvalue.c b/src/voucher/keyvalue.c
index 0793024..b95cdf9 100644
--- a/src/voucher/keyvalue.c
+++ b/src/voucher/keyvalue.c
@@ -89,6 +89,8 @@ int push_keyvalue_list(struct keyvalue_list *kv_list, char *const key,
     return -1;
   }
 
+  dl_list_init(&el->list, (void *)el);
+
   el->key = sys_strdup(key);
   if (el->key == NULL) {
     log_errno("sys_strdup");
-- 
2.43.0


From 9ddf0cb906aa2bd659d71a5b79c6cf9f02511fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 28/49] fix: a failing key generation step must not pass for
 success

---
 src/voucher/crypto_ossl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7a818da..08cfd5b 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -454,7 +454,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -462,7 +462,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits)) {
+  if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) <= 0) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -470,7 +470,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -510,21 +510,21 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen_init(ctx)) {
+  if (EVP_PKEY_paramgen_init(ctx) <= 0) {
     log_error("EVP_PKEY_paramgen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1)) {
+  if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) <= 0) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen(ctx, &params)) {
+  if (EVP_PKEY_paramgen(ctx, &params) <= 0) {
     log_error("EVP_PKEY_paramgen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -542,14 +542,14 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   EVP_PKEY_free(params);
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
-- 
2.43.0


From c24d503ac02e8e90ee81109a2f783895ca7b6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 29/49] fix: a revocation list that cannot be looked up must
 not be ignored

---
 src/voucher/crypto_ossl.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 08cfd5b..1bf56ff 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1245,13 +1245,26 @@ void free_x509_store(X509_STORE *store, struct ptr_list *x509_store_list) {
   free_ptr_list(x509_store_list, free_x509_store_cert);
 }
 
-/* Authorities without a CRL in the store are not subject to revocation */
+/* Authorities without a CRL in the store are not subject to revocation. When
+   the store holds a CRL of the issuer, failing to find it is an error */
 static int verify_store_crl(int ok, X509_STORE_CTX *ctx) {
-  if (!ok && X509_STORE_CTX_get_error(ctx) == X509_V_ERR_UNABLE_TO_GET_CRL) {
-    return 1;
+  if (ok || X509_STORE_CTX_get_error(ctx) != X509_V_ERR_UNABLE_TO_GET_CRL) {
+    return ok;
   }
 
-  return ok;
+  X509_NAME *issuer =
+      X509_get_issuer_name(X509_STORE_CTX_get_current_cert(ctx));
+  STACK_OF(X509_OBJECT) *objects =
+      X509_STORE_get0_objects(X509_STORE_CTX_get0_store(ctx));
+  for (int idx = 0; idx < sk_X509_OBJECT_num(objects); idx++) {
+    X509_CRL *crl =
+        X509_OBJECT_get0_X509_CRL(sk_X509_OBJECT_value(objects, idx));
+    if (crl != NULL && X509_NAME_cmp(X509_CRL_get_issuer(crl), issuer) == 0) {
+      return 0;
+    }
+  }
+
+  return 1;
 }
 
 static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
-- 
2.43.0


From fb6b50aba5e13fd6c6bda90fba1c822fb93bbbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 30/49] fix: a certificate that cannot be added to the stack
 must be reported

---
 src/voucher/crypto_ossl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 1bf56ff..769d06b 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1221,7 +1221,13 @@ static STACK_OF(X509) *
       sk_X509_pop_free(cert_stack, X509_free);
       return NULL;
     }
-    sk_X509_push(cert_stack, x509);
+    if (!sk_X509_push(cert_stack, x509)) {
+      log_error("sk_X509_push fail with code=%s",
+                ERR_error_string(ERR_get_error(), NULL));
+      X509_free(x509);
+      sk_X509_pop_free(cert_stack, X509_free);
+      return NULL;
+    }
   }
 
   return cert_stack;
-- 
2.43.0


From c2099536396a99a87bbc07efef1a65e0de5c20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 31/49] fix: a verified message whose signers cannot be listed
 is a failure

---
 src/voucher/crypto_ossl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 769d06b..241b7e3 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1667,7 +1667,9 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   STACK_OF(X509) *signers = CMS_get0_signers(cms);
 
   if (signers == NULL) {
-    return 0;
+    log_error("CMS_get0_signers fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    return -1;
   }
 
   int length = sk_X509_num(signers);
@@ -1778,6 +1780,8 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
     *out_certs = NULL;
     if (exatract_cms_certs(content, out_certs) < 0) {
       log_error("exatract_cms_certs fail");
+      sys_free(*data);
+      *data = NULL;
       goto crypto_verify_cms_fail;
     }
   }
-- 
2.43.0


From 1e902a0f943eaae9c17771fe8b7137617968fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 32/49] fix: a registrar out of memory must answer, not fault

---
 src/brski/registrar/registrar_api.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index eb5546f..2c7cff5 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -201,9 +201,14 @@ int registrar_requestvoucher(const RequestHeader &request_header,
 
   auto pledge_voucher_request_cms =
       std::unique_ptr<BinaryArray, void (*)(BinaryArray *)>{
-          static_cast<BinaryArray *>(std::malloc(sizeof(BinaryArray))),
+          init_binary_array(),
           [](BinaryArray *b) { free_binary_array(b); },
       };
+  if (pledge_voucher_request_cms == nullptr) {
+    log_error("init_binary_array fail");
+    return 500;
+  }
+
   if ((pledge_voucher_request_cms->length =
            serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
                                      &pledge_voucher_request_cms->array)) < 0) {
-- 
2.43.0


From 8a8f918b5087aca335323ced7c9b5e392a0fa813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 33/49] fix: a server whose certificate cannot be loaded
 faulted instead of reporting failure

---
 src/brski/http/httplib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index a4e7b8f..1a4bc87 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -8913,7 +8913,7 @@ inline SSLServer::SSLServer(const char *cert_path, const char *private_key_path,
           ctx_, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, nullptr);
     }
 
-    if (client_ca_cert_file_path == nullptr &&
+    if (ctx_ != nullptr && client_ca_cert_file_path == nullptr &&
         client_ca_cert_dir_path == nullptr) {
       SSL_CTX_set_verify(ctx_,
                          SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT,
-- 
2.43.0


From c93b578d8e77fba7724cdb0ccd792bbb2c77e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 34/49] fix: error answers were sent with two content types

---
 src/brski/http/httplib_wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index ec49ca3..0936759 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -167,6 +167,7 @@ void set_error_handler(httplib::SSLServer *server) {
           res.body = HTTP_ERROR_REPLY; // set default error response
         }
         // according to BRSKI spec, all errors must be plain text
+        res.headers.erase("Content-Type");
         res.set_header("Content-Type", "text/plain");
       });
 }
-- 
2.43.0


From 69345796a206acc4c6b4f89bbcb9f6b0975f5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 35/49] fix: route paths were taken for regular expressions

---
 src/brski/http/httplib_wrapper.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 0936759..97e4d69 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -9,6 +9,9 @@
  */
 
 #define CPPHTTPLIB_OPENSSL_SUPPORT
+#include <cstring>
+#include <string>
+
 #include <openssl/ssl.h>
 #include "httplib.h"
 
@@ -49,6 +52,18 @@ void set_response(std::string &response, ResponseHeader &response_header,
   res.status = status_code;
 }
 
+/* httplib reads a path as a regular expression, ours are plain text */
+static std::string literal_path(const std::string &path) {
+  std::string pattern;
+  for (const char c : path) {
+    if (std::strchr("\\^$.|?*+()[]{}", c) != nullptr) {
+      pattern += '\\';
+    }
+    pattern += c;
+  }
+  return pattern;
+}
+
 int httplib_register_routes(httplib::SSLServer *server,
                             std::vector<struct RouteTuple> &routes,
                             void *user_ctx) {
@@ -59,6 +74,7 @@ int httplib_register_routes(httplib::SSLServer *server,
 
   for (auto route : routes) {
     log_debug("Registering route=%s", route.path.c_str());
+    route.path = literal_path(route.path);
     switch (route.method) {
       case HTTP_METHOD_GET:
         server->Get(route.path, [=](const httplib::Request &req,
-- 
2.43.0


From 3abce724d96614d3e95950c40b53cb4eb7a2086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 36/49] fix: standard input of the tool overflowed its buffer
 by one byte

---
 src/brski/brski.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 92ab7d3..84c3af2 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -407,7 +407,7 @@ int main(int argc, char *argv[]) {
     }
     case CommandId::COMMAND_VERIFY_MASA: {
       struct BinaryArray pinned_domain_cert = {};
-      uint8_t inbuf[MAX_STDIN_SIZE];
+      uint8_t inbuf[MAX_STDIN_SIZE + 1];
       if (in_filename.empty()) {
         log_error("No input registrar certificate file");
         return EXIT_FAILURE;
-- 
2.43.0


From 47a2894f8f6287f903ebdd8ca549f3f5e3370a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 37/49] fix: the help text read past the end of the program
 name

---
 src/brski/brski.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 84c3af2..f5d6c35 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -86,6 +86,7 @@ static void show_version(void) {
 static void show_help(const char *name) {
   const std::string string_name(name);
   std::vector<char> basename_buffer(string_name.begin(), string_name.end());
+  basename_buffer.push_back('\0');
 
   show_version();
   std::fprintf(stdout, "Usage:\n");
-- 
2.43.0


From 2dfeb44d66c77e06b3d63178ea1e8238e968a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 38/49] fix: the tool reported success when its output could
 not be written

---
 src/brski/brski.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index f5d6c35..a8a5094 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -522,5 +522,10 @@ int main(int argc, char *argv[]) {
       break;
   }
 
+  if (std::fflush(stdout) != 0 || std::ferror(stdout)) {
+    log_errno("stdout fail");
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From 6cab4c27b7a110a02c5e89c4ac0d2d8ce0b19e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 39/49] fix: long output names of the tool were cut off and
 reported as written

---
 src/brski/brski.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index a8a5094..a9d160a 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -239,8 +239,6 @@ int read_stdin(uint8_t buf[]) {
 
 int output_domain_cert(struct BinaryArray *pinned_domain_cert,
                        std::string &out_filename) {
-  char outf[255];
-
   if (out_filename.empty()) {
     char *cert_str = NULL;
     if (serialize_array2base64str(pinned_domain_cert->array,
@@ -252,8 +250,8 @@ int output_domain_cert(struct BinaryArray *pinned_domain_cert,
     print_cert(cert_str, 0);
     sys_free(cert_str);
   } else {
-    snprintf(outf, 255, "%s.crt", out_filename.c_str());
-    if (certbuf_to_file(pinned_domain_cert, outf) < 0) {
+    const std::string outf = out_filename + ".crt";
+    if (certbuf_to_file(pinned_domain_cert, outf.c_str()) < 0) {
       log_error("certbuf_to_file fail");
       return -1;
     }
@@ -268,7 +266,6 @@ int main(int argc, char *argv[]) {
   std::string config_filename, in_filename, out_filename;
   std::string address;
   CommandId command_id;
-  char outf[255];
 
   process_options(argc, argv, verbose, config_filename, in_filename,
                   out_filename, &port, address, command_id);
@@ -331,10 +328,10 @@ int main(int argc, char *argv[]) {
         sys_free(base64);
         free_binary_array(tls_cert);
       } else {
-        snprintf(outf, 255, "%s.smime", out_filename.c_str());
+        const std::string outf = out_filename + ".smime";
 
-        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert, outf) <
-            0) {
+        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert,
+                                                outf.c_str()) < 0) {
           log_error("voucher_pledge_request_to_smimefile fail");
           return EXIT_FAILURE;
         }
@@ -390,13 +387,13 @@ int main(int argc, char *argv[]) {
         print_cert(pki_str, 0);
         sys_free(pki_str);
       } else {
-        snprintf(outf, 255, "%s.crt", out_filename.c_str());
-        if (certbuf_to_file(&out_cert, outf) < 0) {
+        const std::string cert_outf = out_filename + ".crt";
+        if (certbuf_to_file(&out_cert, cert_outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-        snprintf(outf, 255, "%s.key", out_filename.c_str());
-        if (keybuf_to_file(&out_key, outf) < 0) {
+        const std::string key_outf = out_filename + ".key";
+        if (keybuf_to_file(&out_key, key_outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-- 
2.43.0


From ae522ddbbcc210b44b481c21e94f4f6fcde2bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 40/49] fix: treat arrays without bytes as empty attribute
 values

---
 src/voucher/voucher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index bac7259..d89e088 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -37,7 +37,7 @@ static bool is_attr_array_nonempty(const struct BinaryArray *value) {
     return false;
   }
 
-  if (value->array == NULL && !value->length) {
+  if (value->array == NULL || !value->length) {
     return false;
   }
 
-- 
2.43.0


From e186497f3f3af9d9daaa8b2011ed2ac023819095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 41/49] fix: refuse certificate names with NUL characters
 instead of cutting them off

---
 src/voucher/crypto_ossl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 241b7e3..95c6009 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -673,12 +673,20 @@ int get_x509_entry(X509_NAME *name, int nid, char **out) {
 
   ASN1_STRING *d = X509_NAME_ENTRY_get_data(e);
   unsigned char *str = NULL;
-  if (ASN1_STRING_to_UTF8(&str, d) < 0) {
+  int length = ASN1_STRING_to_UTF8(&str, d);
+  if (length < 0) {
     log_error("ASN1_STRING_to_UTF8 code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     return -1;
   }
 
+  /* A value with a NUL character would be cut off when used as a string */
+  if (strlen((char *)str) != (size_t)length) {
+    log_error("name entry contains a NUL character");
+    OPENSSL_free(str);
+    return -1;
+  }
+
   *out = (char *)str;
 
   return 0;
-- 
2.43.0


From d1157d5d5b554263eafed62a9aa9652f81d841d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 42/49] fix: certificates whose names cannot be read were
 issued without a line in the log

---
 src/brski/registrar/registrar_api.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 2c7cff5..9167012 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -28,7 +28,7 @@ extern "C" {
 #include "../config.h"
 }
 
-void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
+int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
   imeta.issuer = init_keyvalue_list();
   imeta.subject = init_keyvalue_list();
@@ -37,14 +37,14 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   if (imeta.issuer == NULL || imeta.subject == NULL) {
     log_error("error allocation metadata");
-    return;
+    return -1;
   }
 
   if (crypto_getcert_meta(icert, &imeta) < 0) {
     log_error("crypto_getcert_meta fail");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
-    return;
+    return -1;
   }
 
   char *iserial = crypto_getcert_serial(&imeta);
@@ -57,7 +57,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     log_error("error allocation metadata");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
-    return;
+    return -1;
   }
 
   if (crypto_getcert_meta(lcert, &lmeta) < 0) {
@@ -66,7 +66,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     free_keyvalue_list(imeta.subject);
     free_keyvalue_list(lmeta.issuer);
     free_keyvalue_list(lmeta.subject);
-    return;
+    return -1;
   }
 
   char *lserial = crypto_getcert_serial(&lmeta);
@@ -75,12 +75,14 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   char *iserial_str = serialize_escapestr((iserial != NULL) ? iserial : "NULL");
   char *lserial_str = serialize_escapestr((lserial != NULL) ? lserial : "NULL");
 
+  int ret = 0;
   FILE *f = fopen(log_path, "a");
   if (f == NULL) {
     log_errno("fopen fail");
   } else if (iserial_str == NULL || lserial_str == NULL) {
     log_error("serialize_escapestr fail");
     fclose(f);
+    ret = -1;
   } else {
     fprintf(f, "%lu 0x%" PRIx64 " %s 0x%" PRIx64 " %s\n", time(NULL),
             imeta.serial_number, iserial_str, lmeta.serial_number, lserial_str);
@@ -98,6 +100,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   free_keyvalue_list(imeta.subject);
   free_keyvalue_list(lmeta.issuer);
   free_keyvalue_list(lmeta.subject);
+  return ret;
 }
 
 int post_voucher_request(struct BinaryArray *voucher_request_cms,
@@ -427,15 +430,20 @@ int registrar_est_simpleenroll(const RequestHeader &request_header,
     goto registrar_signcert_err;
   }
 
-  response.assign((char *)cert_str);
-
   scert = crypto_cert2context(cert_to_sign.array, cert_to_sign.length);
 
-  if (scert != NULL) {
-    save_to_log(peer_certificate, scert, context->log_path);
+  /* No certificate is issued that the log cannot name */
+  if (scert == NULL ||
+      save_to_log(peer_certificate, scert, context->log_path) < 0) {
+    log_error("save_to_log fail");
     crypto_free_certcontext(scert);
+    sys_free(cert_str);
+    goto registrar_signcert_err;
   }
 
+  crypto_free_certcontext(scert);
+  response.assign((char *)cert_str);
+
   sys_free(cert_str);
   free_binary_array_content(&cert_to_sign);
   free_binary_array(tls_ca_cert);
-- 
2.43.0


From a3d0d1ab82ac6b5d9011cedbfb54c60c59241a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:14 +0000
Subject: [PATCH 43/49] fix: ignore SIGPIPE so that a closed connection is an
 error, not the end of the program

---
 src/brski/brski.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index a9d160a..f09b744 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <array>
+#include <csignal>
 #include <cstdarg>
 #include <cstdio>
 #include <cstdlib>
@@ -261,6 +262,9 @@ int output_domain_cert(struct BinaryArray *pinned_domain_cert,
 }
 
 int main(int argc, char *argv[]) {
+  // a peer that closes its connection is an error, not the end of the process
+  std::signal(SIGPIPE, SIG_IGN);
+
   int verbose = 0;
   unsigned int port = 0;
   std::string config_filename, in_filename, out_filename;
-- 
2.43.0


From 7c482c9d65537e31d788e1423bf79482ffe7addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:47 +0000
Subject: [PATCH 44/49] fix: refuse an enrolment answer that is no certificate
 for the generated key

---
 src/brski/pledge/pledge_request.cpp |  6 ++++++
 src/voucher/crypto.h                | 12 ++++++++++++
 src/voucher/crypto_ossl.c           | 22 ++++++++++++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index f3c0c59..8d8cdf0 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -362,6 +362,12 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
   }
   out_cert->length = length;
 
+  if (crypto_check_cert_key(out_cert->array, out_cert->length, out_key->array,
+                            out_key->length) < 0) {
+    log_error("the issued certificate is not for the generated key");
+    goto post_sign_cert_err;
+  }
+
   free_binary_array_content(&pinned_domain_cert);
   return 0;
 
diff --git a/src/voucher/crypto.h b/src/voucher/crypto.h
index a61e010..4b8a41c 100644
--- a/src/voucher/crypto.h
+++ b/src/voucher/crypto.h
@@ -225,6 +225,18 @@ CRYPTO_KEY crypto_key2context(const uint8_t *key, const size_t length);
  */
 CRYPTO_CERT crypto_cert2context(const uint8_t *cert, const size_t length);
 
+/**
+ * @brief Checks that a certificate is for the public key of a private key
+ *
+ * @param[in] cert The input certificate buffer (DER format)
+ * @param[in] cert_length The certificate buffer length
+ * @param[in] key The private key buffer (DER format)
+ * @param[in] key_length The key buffer length
+ * @return 0 if the certificate is for the key, -1 otherwise
+ */
+int crypto_check_cert_key(const uint8_t *cert, const size_t cert_length,
+                          const uint8_t *key, const size_t key_length);
+
 /**
  * @brief Generate a certificate and self sign with a Elliptic Curve private key
  * using sha256
diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 95c6009..37ebc7b 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -618,6 +618,28 @@ CRYPTO_CERT crypto_cert2context(const uint8_t *cert, const size_t length) {
   return ctx;
 }
 
+int crypto_check_cert_key(const uint8_t *cert, const size_t cert_length,
+                          const uint8_t *key, const size_t key_length) {
+  X509 *x509 = crypto_cert2context(cert, cert_length);
+  if (x509 == NULL) {
+    log_error("crypto_cert2context fail");
+    return -1;
+  }
+
+  EVP_PKEY *pkey = crypto_key2context(key, key_length);
+  if (pkey == NULL) {
+    log_error("crypto_key2context fail");
+    X509_free(x509);
+    return -1;
+  }
+
+  int match = X509_check_private_key(x509, pkey);
+
+  EVP_PKEY_free(pkey);
+  X509_free(x509);
+  return match == 1 ? 0 : -1;
+}
+
 CRYPTO_CERT crypto_copycert(CRYPTO_CERT cert) {
   X509 *x509;
   uint8_t *buf = NULL;
-- 
2.43.0


From 1309c35d3dfd7cc52b8ed88060a13d725bed413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 45/49] fix: OpenSSL error texts were written to a buffer
 shared by all threads

---
 src/voucher/crypto_ossl.c | 171 +++++++++++++++-----------------------
 1 file changed, 65 insertions(+), 106 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 37ebc7b..174e1a9 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -52,6 +52,14 @@ static struct NID_Name NNAMES[10] = {{NID_countryName, "C"},
                                      {NID_surname, "SN"},
                                      {NID_givenName, "GN"}};
 
+/* ERR_error_string shares one static buffer between threads if given none */
+static const char *get_error_string(void) {
+  static _Thread_local char buf[256];
+
+  ERR_error_string_n(ERR_get_error(), buf, sizeof(buf));
+  return buf;
+}
+
 struct ptr_list {
   void *ptr;           /**< The pointer (points to heap memory) */
   int flags;           /**< The generic pointer flags */
@@ -129,8 +137,7 @@ static CMS_ContentInfo *derbuf_to_cms(const uint8_t *cms,
   CMS_ContentInfo *content = NULL;
   const unsigned char *pp = (unsigned char *)cms;
   if (d2i_CMS_ContentInfo(&content, &pp, cms_length) == NULL) {
-    log_error("d2i_CMS_ContentInfo fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("d2i_CMS_ContentInfo fail with code=%s", get_error_string());
     return NULL;
   }
 
@@ -152,23 +159,20 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
 
   BIO *out = BIO_new_file(filename, "w");
   if (out == NULL) {
-    log_error("BIO_new_ex fail with %s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("BIO_new_ex fail with %s", get_error_string());
     CMS_ContentInfo_free(content);
     return -1;
   }
 
   if (!SMIME_write_CMS(out, content, NULL, CMS_TEXT)) {
-    log_error("SMIME_write_CMS fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("SMIME_write_CMS fail with code=%s", get_error_string());
     BIO_free(out);
     CMS_ContentInfo_free(content);
     return -1;
   }
 
   if (BIO_flush(out) <= 0) {
-    log_error("BIO_flush fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("BIO_flush fail with code=%s", get_error_string());
     BIO_free(out);
     CMS_ContentInfo_free(content);
     return -1;
@@ -230,8 +234,7 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
   }
 
   if (!PEM_write_PrivateKey(fp, pkey, NULL, NULL, 0, 0, NULL)) {
-    log_error("PEM_write_bio_X509 fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("PEM_write_bio_X509 fail with code=%s", get_error_string());
     fclose(fp);
     EVP_PKEY_free(pkey);
     return -1;
@@ -270,8 +273,7 @@ static ssize_t evpkey_to_derbuf(const EVP_PKEY *pkey, uint8_t **key) {
 
   int length = i2d_PrivateKey(pkey, key);
   if (length < 0) {
-    log_error("i2d_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("i2d_PrivateKey fail with code=%s", get_error_string());
     return -1;
   }
 
@@ -311,8 +313,7 @@ struct BinaryArray *file_to_x509buf(const char *filename) {
 
   X509 *x509 = PEM_read_X509(fp, NULL, NULL, NULL);
   if (x509 == NULL) {
-    log_error("PEM_read_X509 fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("PEM_read_X509 fail with code=%s", get_error_string());
     fclose(fp);
     return NULL;
   }
@@ -349,8 +350,7 @@ struct BinaryArray *file_to_keybuf(const char *filename) {
 
   EVP_PKEY *pkey = PEM_read_PrivateKey(fp, NULL, NULL, NULL);
   if (pkey == NULL) {
-    log_error("PEM_read_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("PEM_read_PrivateKey fail with code=%s", get_error_string());
     fclose(fp);
     return NULL;
   }
@@ -402,14 +402,12 @@ static ssize_t cms_to_derbuf(const CMS_ContentInfo *content, uint8_t **cms) {
   BIO *mem = BIO_new_ex(NULL, BIO_s_mem());
 
   if (mem == NULL) {
-    log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("BIO_new_ex fail with code=%s", get_error_string());
     return -1;
   }
 
   if (!i2d_CMS_bio(mem, (CMS_ContentInfo *)content)) {
-    log_error("i2d_CMS_bio fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("i2d_CMS_bio fail with code=%s", get_error_string());
     BIO_free(mem);
     return -1;
   }
@@ -429,8 +427,7 @@ static X509_CRL *derbuf_to_crl(const uint8_t *crl, const size_t length) {
   X509_CRL *crl_cert = NULL;
   const unsigned char *pp = (unsigned char *)crl;
   if (d2i_X509_CRL(&crl_cert, &pp, length) == NULL) {
-    log_error("d2i_X509_CRL fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("d2i_X509_CRL fail with code=%s", get_error_string());
     return NULL;
   }
 
@@ -448,15 +445,13 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
   }
 
   if ((ctx = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, NULL)) == NULL) {
-    log_error("EVP_PKEY_CTX_new_id fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_CTX_new_id fail with code=%s", get_error_string());
     free_binary_array(key);
     return NULL;
   }
 
   if (EVP_PKEY_keygen_init(ctx) <= 0) {
-    log_error("EVP_PKEY_keygen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_keygen_init fail with code=%s", get_error_string());
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
@@ -464,15 +459,14 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
 
   if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) <= 0) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
   }
 
   if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
-    log_error("EVP_PKEY_keygen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_keygen fail with code=%s", get_error_string());
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
@@ -505,28 +499,25 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   *key = NULL;
   if ((ctx = EVP_PKEY_CTX_new_id(EVP_PKEY_EC, NULL)) == NULL) {
-    log_error("EVP_PKEY_CTX_new_id fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_CTX_new_id fail with code=%s", get_error_string());
     return -1;
   }
 
   if (EVP_PKEY_paramgen_init(ctx) <= 0) {
-    log_error("EVP_PKEY_paramgen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_paramgen_init fail with code=%s", get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) <= 0) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_paramgen(ctx, &params) <= 0) {
-    log_error("EVP_PKEY_paramgen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_paramgen fail with code=%s", get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
@@ -534,8 +525,7 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
   EVP_PKEY_CTX_free(ctx);
 
   if ((ctx = EVP_PKEY_CTX_new(params, NULL)) == NULL) {
-    log_error("EVP_PKEY_CTX_new fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_CTX_new fail with code=%s", get_error_string());
     EVP_PKEY_free(params);
     return -1;
   }
@@ -543,15 +533,13 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
   EVP_PKEY_free(params);
 
   if (EVP_PKEY_keygen_init(ctx) <= 0) {
-    log_error("EVP_PKEY_keygen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_keygen_init fail with code=%s", get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
-    log_error("EVP_PKEY_keygen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("EVP_PKEY_keygen fail with code=%s", get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
@@ -573,8 +561,7 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 CRYPTO_KEY crypto_eckey2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_PrivateKey(EVP_PKEY_EC, NULL, &key, (long)length)) == NULL) {
-    log_error("d2i_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("d2i_PrivateKey fail with code=%s", get_error_string());
     return NULL;
   }
 
@@ -584,8 +571,7 @@ CRYPTO_KEY crypto_eckey2context(const uint8_t *key, const size_t length) {
 CRYPTO_KEY crypto_rsakey2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_PrivateKey(EVP_PKEY_RSA, NULL, &key, (long)length)) == NULL) {
-    log_error("d2i_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("d2i_PrivateKey fail with code=%s", get_error_string());
     return NULL;
   }
 
@@ -596,8 +582,7 @@ CRYPTO_KEY crypto_rsakey2context(const uint8_t *key, const size_t length) {
 CRYPTO_KEY crypto_key2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_AutoPrivateKey(NULL, &key, (long)length)) == NULL) {
-    log_error("d2i_AutoPrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("d2i_AutoPrivateKey fail with code=%s", get_error_string());
     return NULL;
   }
 
@@ -697,8 +682,7 @@ int get_x509_entry(X509_NAME *name, int nid, char **out) {
   unsigned char *str = NULL;
   int length = ASN1_STRING_to_UTF8(&str, d);
   if (length < 0) {
-    log_error("ASN1_STRING_to_UTF8 code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("ASN1_STRING_to_UTF8 code=%s", get_error_string());
     return -1;
   }
 
@@ -755,19 +739,17 @@ int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta) {
 
   asn1_serial = X509_get_serialNumber(x509);
   if (asn1_serial == NULL) {
-    log_error("X509_get_serialNumber fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_get_serialNumber fail with code=%s", get_error_string());
   } else {
     if (!ASN1_INTEGER_get_uint64(&meta->serial_number, asn1_serial)) {
       log_error("ASN1_INTEGER_get_uint64 fail with code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+                get_error_string());
     }
   }
 
   X509_NAME *issuer = X509_get_issuer_name(x509);
   if (issuer == NULL) {
-    log_error("X509_get_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_get_issuer_name fail with code=%s", get_error_string());
     return -1;
   }
 
@@ -779,8 +761,7 @@ int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta) {
   X509_NAME *subject = X509_get_subject_name(x509);
 
   if (subject == NULL) {
-    log_error("X509_get_subject_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_get_subject_name fail with code=%s", get_error_string());
     return -1;
   }
 
@@ -801,21 +782,18 @@ struct BinaryArray *crypto_getcert_issuer(CRYPTO_CERT cert) {
 
   X509_NAME *issuer = X509_get_issuer_name(x509);
   if (issuer == NULL) {
-    log_error("X509_get_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_get_issuer_name fail with code=%s", get_error_string());
     return NULL;
   }
 
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
-    log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("BIO_new_ex fail with code=%s", get_error_string());
     return NULL;
   }
 
   if (X509_NAME_print_ex(mem_data, issuer, 0, XN_FLAG_ONELINE) < 0) {
-    log_error("X509_NAME_print_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_NAME_print_ex fail with code=%s", get_error_string());
     BIO_free(mem_data);
     return NULL;
   }
@@ -891,8 +869,7 @@ static X509_NAME *add_x509name_keyvalues(struct keyvalue_list *pairs) {
 
     if (!X509_NAME_add_entry_by_txt(name, el->key, MBSTRING_ASC,
                                     (unsigned char *)el->value, -1, -1, 0)) {
-      log_error("X509_NAME_add_entry_by_txt code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+      log_error("X509_NAME_add_entry_by_txt code=%s", get_error_string());
       X509_NAME_free(name);
       return NULL;
     }
@@ -904,8 +881,7 @@ static X509_NAME *add_x509name_keyvalues(struct keyvalue_list *pairs) {
 static int set_certificate_meta(X509 *x509,
                                 const struct crypto_cert_meta *meta) {
   if (X509_set_version(x509, X509_VERSION_3) != 1) {
-    log_error("X509_set_version fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_set_version fail with code=%s", get_error_string());
     return -1;
   }
 
@@ -1010,8 +986,7 @@ static int set_certificate_meta(X509 *x509,
 static int sign_sha256_certificate(X509 *x509, const EVP_PKEY *pkey) {
   /* self sign the certificate with the key. */
   if (!X509_sign(x509, (EVP_PKEY *)pkey, EVP_sha256())) {
-    log_error("X509_sign fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_sign fail with code=%s", get_error_string());
     return -1;
   }
 
@@ -1064,8 +1039,7 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
   }
 
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
-    log_error("X509_set_pubkey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_set_pubkey fail with code=%s", get_error_string());
     return -1;
   }
 
@@ -1128,8 +1102,7 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
   }
 
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
-    log_error("X509_set_pubkey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_set_pubkey fail with code=%s", get_error_string());
     return -1;
   }
 
@@ -1193,15 +1166,13 @@ ssize_t crypto_sign_cert(const uint8_t *sign_key, const size_t sign_key_length,
 
   X509_NAME *ca_subject = X509_get_subject_name(x509_ca);
   if (ca_subject == NULL) {
-    log_error("X509_get_subject_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_get_subject_name fail with code=%s", get_error_string());
     goto crypto_sign_cert_fail;
   }
 
   /* Set the issuer to the one from the CA/intermediate certificate */
   if (!X509_set_issuer_name(x509, ca_subject)) {
-    log_error("X509_set_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_set_issuer_name fail with code=%s", get_error_string());
     goto crypto_sign_cert_fail;
   }
 
@@ -1238,8 +1209,7 @@ static STACK_OF(X509) *
   STACK_OF(X509) *cert_stack = sk_X509_new_null();
 
   if (cert_stack == NULL) {
-    log_error("sk_X509_new_null fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("sk_X509_new_null fail with code=%s", get_error_string());
     return NULL;
   }
 
@@ -1252,8 +1222,7 @@ static STACK_OF(X509) *
       return NULL;
     }
     if (!sk_X509_push(cert_stack, x509)) {
-      log_error("sk_X509_push fail with code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+      log_error("sk_X509_push fail with code=%s", get_error_string());
       X509_free(x509);
       sk_X509_pop_free(cert_stack, X509_free);
       return NULL;
@@ -1319,8 +1288,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   X509_STORE *x509_store = X509_STORE_new();
 
   if (x509_store == NULL) {
-    log_error("X509_STORE_new fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("X509_STORE_new fail with code=%s", get_error_string());
     free_x509_store(x509_store, *x509_store_list);
     return NULL;
   }
@@ -1338,8 +1306,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       }
 
       if (!X509_STORE_add_cert(x509_store, x509)) {
-        log_error("X509_STORE_add_cert fail with code=%s",
-                  ERR_error_string(ERR_get_error(), NULL));
+        log_error("X509_STORE_add_cert fail with code=%s", get_error_string());
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1354,8 +1321,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       }
 
       if (!X509_STORE_add_crl(x509_store, x509_crl)) {
-        log_error("X509_STORE_add_crl fail with code=%s",
-                  ERR_error_string(ERR_get_error(), NULL));
+        log_error("X509_STORE_add_crl fail with code=%s", get_error_string());
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1377,15 +1343,14 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
-/* X509_build_chain selects the issuers by name only and may return an incomplete
-   chain, so check that every certificate was signed with the key of the next
-   one and that the last one is trusted */
-static int verify_chain_signatures(STACK_OF(X509) *chain, X509_STORE *store) {
+/* X509_build_chain selects the issuers by name only and may return an
+   incomplete chain, so check that every certificate was signed with the key of
+   the next one and that the last one is trusted */
+static int verify_chain_signatures(STACK_OF(X509) * chain, X509_STORE *store) {
   for (int idx = 0; idx + 1 < sk_X509_num(chain); idx++) {
     EVP_PKEY *pkey = X509_get0_pubkey(sk_X509_value(chain, idx + 1));
     if (pkey == NULL || X509_verify(sk_X509_value(chain, idx), pkey) != 1) {
-      log_error("X509_verify fail with code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+      log_error("X509_verify fail with code=%s", get_error_string());
       return -1;
     }
   }
@@ -1405,7 +1370,7 @@ static int verify_chain_signatures(STACK_OF(X509) *chain, X509_STORE *store) {
 
 /* Without trusted certificates, the certificate has to be signed by one of the
    given certificates, or to be one of them */
-static int verify_cert_issuer(X509 *x509, STACK_OF(X509) *certs) {
+static int verify_cert_issuer(X509 *x509, STACK_OF(X509) * certs) {
   for (int idx = 0; idx < sk_X509_num(certs); idx++) {
     X509 *issuer = sk_X509_value(certs, idx);
     EVP_PKEY *pkey = X509_get0_pubkey(issuer);
@@ -1495,14 +1460,12 @@ static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
                                 uint8_t **cms) {
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
-    log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("BIO_new_ex fail with code=%s", get_error_string());
     return -1;
   }
 
   if (BIO_write(mem_data, data, data_length) < 0) {
-    log_error("BIO_write fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("BIO_write fail with code=%s", get_error_string());
     BIO_free(mem_data);
     return -1;
   }
@@ -1697,8 +1660,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   STACK_OF(X509) *signers = CMS_get0_signers(cms);
 
   if (signers == NULL) {
-    log_error("CMS_get0_signers fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("CMS_get0_signers fail with code=%s", get_error_string());
     return -1;
   }
 
@@ -1786,16 +1748,14 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
 
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
-    log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("BIO_new_ex fail with code=%s", get_error_string());
     goto crypto_verify_cms_fail;
   }
 
   unsigned int flags = (cert_store == NULL) ? CMS_NO_SIGNER_CERT_VERIFY : 0;
 
   if (!CMS_verify(content, cert_stack, cert_store, NULL, mem_data, flags)) {
-    log_error("CMS_verify fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("CMS_verify fail with code=%s", get_error_string());
     goto crypto_verify_cms_fail;
   }
 
@@ -1842,8 +1802,7 @@ int crypto_getrand(struct BinaryArray *buf) {
   ret = RAND_bytes(buf->array, buf->length);
 
   if (ret != 1) {
-    log_error("RAND_bytes fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+    log_error("RAND_bytes fail with code=%s", get_error_string());
     return -1;
   }
 
-- 
2.43.0


From aaa214e67cecf119457906ec05b9aea819ba1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 46/49] fix: the voucher root was also found inside nested
 values

---
 src/voucher/voucher.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index d89e088..0cee5f4 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -916,6 +916,12 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
 
       break;
     }
+
+    /* The root is a member of the document itself, skip any nested values */
+    int value_idx = idx + 1;
+    while (idx + 1 < count && tokens[idx + 1].start < tokens[value_idx].end) {
+      idx++;
+    }
   }
 
   if (!found_root) {
-- 
2.43.0


From 84c69ebf9d89467b5a966a313dc96779bade391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 47/49] fix: long audit log lines of simultaneous enrolments
 were mixed

---
 src/brski/registrar/registrar_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 9167012..2217447 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -9,6 +9,7 @@
  */
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <new>
 #include <string>
 
@@ -75,6 +76,10 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   char *iserial_str = serialize_escapestr((iserial != NULL) ? iserial : "NULL");
   char *lserial_str = serialize_escapestr((lserial != NULL) ? lserial : "NULL");
 
+  /* A line longer than the buffer of the stream is written in pieces */
+  static std::mutex log_mutex;
+  std::lock_guard<std::mutex> log_guard(log_mutex);
+
   int ret = 0;
   FILE *f = fopen(log_path, "a");
   if (f == NULL) {
-- 
2.43.0


From 1420dad1ea8157dc5fec29649b1dbb9791cdfee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 48/49] fix: long time values in a configuration file were cut
 off

---
 src/brski/config.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index 6060948..2bb2bba 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -29,7 +29,6 @@
 
 #include "pledge/pledge_config.h"
 
-#define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
 struct config_value_list {
@@ -156,13 +155,13 @@ int load_masa_config(const char *filename, struct masa_config *const mconf) {
     sys_free(value);
   }
 
-  if ((value = sys_zalloc(TIME_ISO_STR_SIZE)) == NULL) {
+  if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
     log_errno("sys_zalloc");
     free_masa_config_content(mconf);
     return -1;
   }
 
-  ini_gets("masa", "expiresOn", "", value, TIME_ISO_STR_SIZE, filename);
+  ini_gets("masa", "expiresOn", "", value, MAX_CONFIG_VALUE_SIZE, filename);
   mconf->expires_on = value;
   if (!strlen(mconf->expires_on)) {
     mconf->expires_on = NULL;
@@ -505,13 +504,14 @@ int load_pledge_config(const char *filename,
                        struct pledge_config *const pconf) {
   char *value = NULL;
 
-  if ((value = sys_zalloc(TIME_ISO_STR_SIZE)) == NULL) {
+  if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
     log_errno("sys_zalloc");
     free_pledge_config_content(pconf);
     return -1;
   }
 
-  ini_gets("pledge", "createdOn", "", value, TIME_ISO_STR_SIZE, filename);
+  ini_gets("pledge", "createdOn", "", value, MAX_CONFIG_VALUE_SIZE,
+           filename);
   pconf->created_on = value;
   if (!strlen(pconf->created_on)) {
     pconf->created_on = NULL;
-- 
2.43.0


From 6d532e8ed919ad566fbf8cd88e4187dffe065793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 49/49] fix: malformed date-times were read as other times

strptime() takes one-digit fields, blanks between fields and days that a
month doesn't have, so "2023-02-31T00:00:00Z" was read as a date in March.
---
 src/voucher/serialize.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 33ec05f..c1bf736 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -360,6 +360,25 @@ int serialize_str2time(const char *str, const struct tm *tm) {
     return -1;
   }
 
+  // strptime() is lenient about spaces and missing digits (e.g. 2023-1-2T3:4:5Z)
+  char text[sizeof("-12-31T23:59:59Z")];
+
+  if (strftime(text, sizeof(text), "-%m-%dT%H:%M:%SZ", tm) == 0 ||
+      !isdigit((unsigned char)str[0]) || strcmp(text, strchr(str, '-')) != 0) {
+    log_error("not an ISO 8601 time");
+    return -1;
+  }
+
+  // and it accepts days that don't exist (e.g. 2023-02-31)
+  struct tm date = *tm;
+
+  date.tm_sec = 0; // may be a leap second
+  timegm(&date);
+  if (date.tm_mday != tm->tm_mday) {
+    log_error("not a calendar date");
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0

