From 138d40921378a963f3c59d2e5a598186a05a65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:28 +0000
Subject: [PATCH 01/74] fix: keep host intact in urinorm (IPv6 literals,
 encoded delimiters, encoded case)

---
 openid/urinorm.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 22b3dad..de82053 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -85,17 +85,23 @@ def urinorm(uri):
     hostname = split_uri.hostname
     if hostname is None:
         hostname = ''
+    if split_uri.netloc.rpartition('@')[2].startswith('['):
+        # IP literal - `hostname` is stripped of its brackets
+        _check_disallowed_characters(hostname, 'hostname')
+        hostname = '[' + hostname.lower() + ']'
     else:
-        hostname = hostname.lower()
-    # Unquote percent encoded characters
-    hostname = unquote(hostname)
-    # Quote IDN domain names
-    try:
-        # hostname: str --[idna]--> bytes --[utf-8]--> str
-        hostname = hostname.encode('idna').decode('utf-8')
-    except ValueError as error:
-        raise ValueError('Invalid hostname {!r}: {}'.format(hostname, error))
-    _check_disallowed_characters(hostname, 'hostname')
+        # Unquote percent encoded characters
+        hostname = unquote(hostname).lower()
+        # Quote IDN domain names
+        try:
+            # hostname: str --[idna]--> bytes --[utf-8]--> str
+            hostname = hostname.encode('idna').decode('utf-8')
+        except ValueError as error:
+            raise ValueError('Invalid hostname {!r}: {}'.format(hostname, error))
+        _check_disallowed_characters(hostname, 'hostname')
+        # Decoded delimiters would turn a part of the hostname into another part of the URI.
+        if set(hostname).intersection(GEN_DELIMS + PERCENT_ENCODING_CHARACTER):
+            raise ValueError('Illegal characters in URI hostname: {}'.format(hostname))
 
     try:
         port = split_uri.port
-- 
2.43.0


From d2e4257b256cfaeae1383adb74ae29a6cc7d0846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:32 +0000
Subject: [PATCH 02/74] fix: keep blank values and undecodable bytes of query
 in urinorm

---
 openid/urinorm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index de82053..cdc109c 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -142,11 +142,12 @@ def urinorm(uri):
     # requires values to be convertible to native strings using `str()`.
     if isinstance(split_uri.query, str):
         # Python 3 branch
-        data = parse_qsl(split_uri.query)
+        data = parse_qsl(split_uri.query, keep_blank_values=True, errors='surrogateescape')
+        query = urlencode(data, errors='surrogateescape')
     else:
         # Python 2 branch
-        data = parse_qsl(split_uri.query.encode('utf-8'))
-    query = urlencode(data)
+        data = parse_qsl(split_uri.query.encode('utf-8'), keep_blank_values=True)
+        query = urlencode(data)
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-- 
2.43.0


From fdb8be83fce69251497acf830907be1b11c45ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 03/74] fix: do not merge encoded slashes and undecodable bytes
 of path in urinorm

---
 openid/urinorm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index cdc109c..f2ae95d 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -4,7 +4,7 @@ from __future__ import unicode_literals
 import string
 
 import six
-from six.moves.urllib.parse import parse_qsl, quote, unquote, urlencode, urlsplit, urlunsplit
+from six.moves.urllib.parse import parse_qsl, quote, unquote, unquote_to_bytes, urlencode, urlsplit, urlunsplit
 
 from .oidutil import string_to_text
 
@@ -123,15 +123,16 @@ def urinorm(uri):
 
     # Normalize path
     path = split_uri.path
-    # Unquote and quote - this normalizes the percent encoding
+    # Unquote and quote - this normalizes the percent encoding. An encoded slash doesn't separate segments.
 
     # This is hackish. `unquote` and `quote` requires `str` in both py27 and py3+.
     if isinstance(path, str):
         # Python 3 branch
-        path = quote(unquote(path), safe='/' + SUB_DELIMS)
+        path = '/'.join(quote(unquote_to_bytes(i), safe=SUB_DELIMS) for i in path.split('/'))
     else:
         # Python 2 branch
-        path = quote(unquote(path.encode('utf-8')), safe=('/' + SUB_DELIMS).encode('utf-8')).decode('utf-8')
+        path = '/'.join(quote(unquote(i.encode('utf-8')), safe=SUB_DELIMS.encode('utf-8')).decode('utf-8')
+                        for i in path.split('/'))
 
     path = remove_dot_segments(path)
     if not path:
-- 
2.43.0


From 2490082330e4e3ee5644ad8193ff36a1362abfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 04/74] fix: make normalization of fragment in urinorm
 idempotent

---
 openid/urinorm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index f2ae95d..4c0bcab 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -152,7 +152,14 @@ def urinorm(uri):
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-    fragment = unquote(split_uri.fragment)
+    fragment = split_uri.fragment
+    # Unquote and quote - a mere unquote would decode percent encoding again in every normalization.
+    if isinstance(fragment, str):
+        # Python 3 branch
+        fragment = quote(unquote_to_bytes(fragment), safe='/?:@' + SUB_DELIMS)
+    else:
+        # Python 2 branch
+        fragment = quote(unquote(fragment.encode('utf-8')), safe=('/?:@' + SUB_DELIMS).encode('utf-8')).decode('utf-8')
     _check_disallowed_characters(fragment, 'fragment')
 
     return urlunsplit((scheme, netloc, path, query, fragment))
-- 
2.43.0


From 250dc21c52e6d942a4933a771ccfcb42728e7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:52 +0000
Subject: [PATCH 05/74] fix: allow SQLStore with default table names

---
 openid/store/sqlstore.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 2d3b0b8..07ee265 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -99,10 +99,12 @@ class SQLStore(OpenIDStore):
         self.conn = conn
         self.cur = None
         self._statement_cache = {}
-        associations_table = string_to_text(
-            associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
-        nonces_table = string_to_text(nonces_table,
-                                      "Binary values for nonces_table are deprecated. Use text input instead.")
+        if associations_table is not None:
+            associations_table = string_to_text(
+                associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
+        if nonces_table is not None:
+            nonces_table = string_to_text(nonces_table,
+                                          "Binary values for nonces_table are deprecated. Use text input instead.")
         self._table_names = {
             'associations': associations_table or self.associations_table,
             'nonces': nonces_table or self.nonces_table,
-- 
2.43.0


From 7b91283e3ed3de1986886cf4dce663d02ab54018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:54 +0000
Subject: [PATCH 06/74] fix: do not compare associations issued at the same
 time in stores

---
 openid/store/filestore.py | 2 +-
 openid/store/sqlstore.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 33e35e0..a0a2d81 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -255,7 +255,7 @@ class FileOpenIDStore(OpenIDStore):
                     matching_associations.append(
                         (association.issued, association))
 
-            matching_associations.sort()
+            matching_associations.sort(key=lambda item: item[0])
 
             # return the most recently issued one.
             if matching_associations:
diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 07ee265..71cca95 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -249,7 +249,7 @@ class SQLStore(OpenIDStore):
                     associations.append((assoc.issued, assoc))
 
             if associations:
-                associations.sort()
+                associations.sort(key=lambda item: item[0])
                 return associations[-1][1]
             else:
                 return None
-- 
2.43.0


From 8f08c8af101c4479a189d9c45848aa1cd776409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 07/74] fix: prefer valid associations to expired ones in
 MemoryStore

---
 openid/store/memstore.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 5587676..d849145 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -28,12 +28,14 @@ class ServerAssocs(object):
             return True
 
     def best(self):
-        """Returns association with the oldest issued date.
+        """Returns the most recently issued association.
 
-        or None if there are no associations.
+        or None if there are no valid associations.
         """
         best = None
-        for assoc in self.assocs.values():
+        for assoc in list(self.assocs.values()):
+            if assoc.getExpiresIn() == 0:
+                continue
             if best is None or best.issued < assoc.issued:
                 best = assoc
         return best
-- 
2.43.0


From 5f0ac59482ac44afc64fbd77f503fe23621bb87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 08/74] fix: check and store nonce atomically in MemoryStore

---
 openid/store/memstore.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index d849145..21db7d2 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -91,11 +91,10 @@ class MemoryStore(object):
             return False
 
         anonce = (six.text_type(server_url), int(timestamp), six.text_type(salt))
-        if anonce in self.nonces:
-            return False
-        else:
-            self.nonces[anonce] = None
-            return True
+        # Check and store the nonce in one step, so it can't be used by two threads. Only the call which stored the
+        # nonce gets its own marker back.
+        marker = []
+        return self.nonces.setdefault(anonce, marker) is marker
 
     def cleanupNonces(self):
         now = time.time()
-- 
2.43.0


From 1f78b30e8c120b01f168bb1042cba8de72e2d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:46 +0000
Subject: [PATCH 09/74] fix: flush association file before it is synced and
 renamed

---
 openid/store/filestore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index a0a2d81..de00ce2 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -188,6 +188,7 @@ class FileOpenIDStore(OpenIDStore):
         try:
             try:
                 tmp_file.write(association_s.encode('utf-8'))
+                tmp_file.flush()
                 os.fsync(tmp_file.fileno())
             finally:
                 tmp_file.close()
-- 
2.43.0


From 601e2e7f02557da05490a0e651610ddfc27f69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:49 +0000
Subject: [PATCH 10/74] fix: escape and shorten the whole server URL prefix in
 FileOpenIDStore filenames

---
 openid/store/filestore.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index de00ce2..189b5dc 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -40,6 +40,20 @@ def _filenameEscape(s):
     return ''.join(filename_chunks)
 
 
+def _filenamePrefix(server_url):
+    """Return the protocol and the domain of a server URL in a form suitable for a filename.
+
+    They are in the filename only for ease of human inspection, so they are shortened to fit in there.
+
+    six.text_type -> Tuple[six.text_type, six.text_type]
+    """
+    if '://' in server_url:
+        proto, rest = server_url.split('://', 1)
+    else:
+        proto, rest = '', server_url
+    return _filenameEscape(proto)[:16], _filenameEscape(rest.split('/', 1)[0])[:128]
+
+
 def _removeIfPresent(filename):
     """Attempt to remove a file, returning whether the file existed at
     the time of the call.
@@ -159,11 +173,7 @@ class FileOpenIDStore(OpenIDStore):
         server_url = string_to_text(server_url, "Binary values for server_url are deprecated. Use text input instead.")
         handle = string_to_text(handle, "Binary values for handle are deprecated. Use text input instead.")
 
-        if server_url.find('://') == -1:
-            raise ValueError('Bad server URL: %r' % server_url)
-
-        proto, rest = server_url.split('://', 1)
-        domain = _filenameEscape(rest.split('/', 1)[0])
+        proto, domain = _filenamePrefix(server_url)
         url_hash = _safe64(server_url)
         if handle:
             handle_hash = _safe64(handle)
@@ -319,14 +329,9 @@ class FileOpenIDStore(OpenIDStore):
         if abs(timestamp - time.time()) > nonce.SKEW:
             return False
 
-        if server_url:
-            proto, rest = server_url.split('://', 1)
-        else:
-            # Create empty proto / rest values for empty server_url,
-            # which is part of a consumer-generated nonce.
-            proto, rest = '', ''
-
-        domain = _filenameEscape(rest.split('/', 1)[0])
+        # The protocol and domain are empty for empty server_url,
+        # which is part of a consumer-generated nonce.
+        proto, domain = _filenamePrefix(server_url)
         url_hash = _safe64(server_url)
         salt_hash = _safe64(salt)
 
-- 
2.43.0


From 8e90e972b6f1a6a6dfbd823b3b057a9f2f5d2720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:52 +0000
Subject: [PATCH 11/74] fix: remove associations which expire right now in SQL
 store cleanup

---
 openid/store/sqlstore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 71cca95..f9fc8f1 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -358,7 +358,7 @@ class SQLiteStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = ? AND handle = ?;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < ?;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= ?;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (?, ?, ?);'
 
@@ -437,7 +437,7 @@ class MySQLStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = %%s AND handle = %%s;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < %%s;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= %%s;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (%%s, %%s, %%s);'
 
@@ -530,7 +530,7 @@ class PostgreSQLStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = %%s AND handle = %%s;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < %%s;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= %%s;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (%%s, %%s, %%s);'
 
-- 
2.43.0


From f84569903415b30a9c3343dd482375a70f41eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:06 +0000
Subject: [PATCH 12/74] fix: negative answer to immediate requests without
 claimed_id

---
 openid/server/server.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 95b847c..a935775 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -897,10 +897,8 @@ class CheckIDRequest(OpenIDRequest):
                 setup_request = self.__class__(
                     self.identity, self.return_to, self.trust_root,
                     immediate=False, assoc_handle=self.assoc_handle,
-                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id)
-
-                # XXX: This API is weird.
-                setup_request.message = self.message
+                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id,
+                    message=self.message)
 
                 setup_url = setup_request.encodeToURL(server_url)
                 response.fields.setArg(OPENID_NS, 'user_setup_url', setup_url)
@@ -925,9 +923,11 @@ class CheckIDRequest(OpenIDRequest):
         # That's right, code imported from alternate realities all for the
         # love of you, id_res/user_setup_url.
         q = {'mode': self.mode,
-             'identity': self.identity,
-             'claimed_id': self.claimed_id,
              'return_to': self.return_to}
+        if self.identity is not None:
+            q['identity'] = self.identity
+        if self.claimed_id is not None:
+            q['claimed_id'] = self.claimed_id
         if self.trust_root:
             if self.message.isOpenID1():
                 q['trust_root'] = self.trust_root
-- 
2.43.0


From a299aa4fa4c67baffe57d33caa3aa328c0408916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:56 +0000
Subject: [PATCH 13/74] fix: report invalid namespace aliases of a request as
 errors of the request

---
 openid/message.py       | 10 ++++++++++
 openid/server/server.py |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/openid/message.py b/openid/message.py
index 554069f..fd38e87 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -86,6 +86,14 @@ class InvalidNamespace(KeyError):
     """
 
 
+class InvalidAlias(InvalidNamespace, AssertionError):
+    """
+    Raised if an alias in a received message can not be used for a namespace
+
+    It is an AssertionError for backward compatibility only.
+    """
+
+
 # Sentinel used for Message implementation to indicate that getArg
 # should raise an exception instead of returning a default.
 no_default = object()
@@ -228,6 +236,8 @@ class Message(object):
         self = cls(openid_namespace, openid_implicit)
 
         for alias, uri in namespaces.items():
+            if alias in OPENID_PROTOCOL_FIELDS or '.' in alias:
+                raise InvalidAlias("%r is not an allowed namespace alias" % (alias,))
             self.namespaces.addAlias(uri, alias)
 
         # Actually put the pairs into the appropriate namespaces
diff --git a/openid/server/server.py b/openid/server/server.py
index a935775..bf0b5f7 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1441,7 +1441,8 @@ class Decoder(object):
             # override the bad ns value to build a Message out of it.  Kinda
             # kludgy, since it's made of lies, but the parts that aren't lies
             # are more useful than a 'None'.
-            query = query.copy()
+            # Other namespaces may be wrong as well, so keep only bare parts of query.
+            query = dict((key, value) for key, value in query.items() if key.count('.') < 2)
             query['openid.ns'] = OPENID2_NS
             message = Message.fromPostArgs(query)
             raise ProtocolError(message, six.text_type(err))
-- 
2.43.0


From d20686bc0d717ea183778b3299b026394cf3520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 14/74] fix: do not accept URLs without a hostname as trust
 roots

---
 openid/server/trustroot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 349032f..ae3f759 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -93,6 +93,8 @@ def _parseURL(url):
         return None
 
     split_url = urlsplit(url)
+    if not split_url.hostname:
+        return None
 
     path = urlunsplit(('', '', split_url.path or '/', split_url.query, split_url.fragment))
 
-- 
2.43.0


From 4516f3b6e96bb57fb4ca89f1ef9d375d5a52536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 15/74] fix: refuse unusable Diffie-Hellman values when an
 associate request is decoded

---
 openid/dh.py            | 2 ++
 openid/server/server.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/openid/dh.py b/openid/dh.py
index 1b6f34c..d54817c 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -49,6 +49,8 @@ class DiffieHellman(object):
         else:
             generator = cryptutil.base64ToLong(generator)
 
+        if modulus % 2 == 0:
+            raise ValueError("Modulus is not an odd prime.")
         self.parameter_numbers = DHParameterNumbers(modulus, generator)
         parameters = self.parameter_numbers.parameters(default_backend())
         self.private_key = parameters.generate_private_key()
diff --git a/openid/server/server.py b/openid/server/server.py
index bf0b5f7..75bbceb 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -388,7 +388,10 @@ class DiffieHellmanSHA1ServerSession(object):
             raise ProtocolError(message, "Public key for DH-SHA1 session "
                                 "not found in message %s" % (message,))
 
-        return cls(dh, consumer_public_key)
+        session = cls(dh, consumer_public_key)
+        # Check if the key can be used in the exchange, raises ValueError if it can't.
+        dh._get_shared_secret(consumer_public_key)
+        return session
 
     def answer(self, secret):
         if self.hash_func is not None:
-- 
2.43.0


From e86bff188b1acdee0b9c29df6990fdb4fa71bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 16/74] fix: raise EncodingError for responses which can not be
 encoded and refuse line breaks in redirects

---
 openid/server/server.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openid/server/server.py b/openid/server/server.py
index 75bbceb..488ed45 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1346,12 +1346,21 @@ class Encoder(object):
             message.
         """
         encode_as = response.whichEncoding()
+        try:
+            return self._encode(response, encode_as)
+        except ValueError as err:
+            # The values can't be represented in the encoding.
+            raise EncodingError(response, explanation=six.text_type(err))
+
+    def _encode(self, response, encode_as):
         if encode_as == ENCODE_KVFORM:
             wr = self.responseFactory(body=response.encodeToKVForm())
             if isinstance(response, Exception):
                 wr.code = HTTP_ERROR
         elif encode_as == ENCODE_URL:
             location = response.encodeToURL()
+            if '\r' in location or '\n' in location:
+                raise ValueError("URL contains line breaks: %r" % (location,))
             wr = self.responseFactory(code=HTTP_REDIRECT,
                                       headers={'location': location})
         elif encode_as == ENCODE_HTML_FORM:
-- 
2.43.0


From 73717ef681812c490032a99a9ceccfdf1301a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:10 +0000
Subject: [PATCH 17/74] fix: confirm signature only to one of concurrent
 check_authentication requests

---
 openid/server/server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 488ed45..372b7c3 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -262,7 +262,10 @@ class CheckAuthRequest(OpenIDRequest):
         is_valid = signatory.verify(self.assoc_handle, self.signed)
         # Now invalidate that assoc_handle so it this checkAuth message cannot
         # be replayed.
-        signatory.invalidate(self.assoc_handle, dumb=True)
+        invalidated = signatory.invalidate(self.assoc_handle, dumb=True)
+        if invalidated is not None and not invalidated:
+            # A concurrent request with the same handle was faster.
+            is_valid = False
         response = OpenIDResponse(self)
         valid_str = (is_valid and "true") or "false"
         response.fields.setArg(OPENID_NS, 'is_valid', valid_str)
@@ -1318,6 +1321,9 @@ class Signatory(object):
 
         @param dumb: Is this association used with dumb mode?
         @type dumb: bool
+
+        @returns: Whether the association existed.
+        @returntype: bool
         """
         if dumb:
             key = self._dumb_key
@@ -1325,7 +1331,7 @@ class Signatory(object):
             key = self._normal_key
         assoc_handle = string_to_text(assoc_handle,
                                       "Binary values for assoc_handle are deprecated. Use text input instead.")
-        self.store.removeAssociation(key, assoc_handle)
+        return self.store.removeAssociation(key, assoc_handle)
 
 
 class Encoder(object):
-- 
2.43.0


From 78e3447a38080077964d9d04f48bb1e5c3b129c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 18/74] fix: return_to verification for realms without a domain

---
 openid/server/trustroot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index ae3f759..88f1f2a 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -426,8 +426,8 @@ def verifyReturnTo(realm_str, return_to, _vrfy=getAllowedReturnURLs):
     @since: 2.1.0
     """
     realm = TrustRoot.parse(realm_str)
-    if realm is None:
-        # The realm does not parse as a URL pattern
+    if realm is None or not realm.host:
+        # The realm does not parse as a URL pattern or it has no domain
         return False
 
     try:
-- 
2.43.0


From 530f4d424327e2bc7cea2a9e3bd24e42f5488c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 19/74] fix: handle responses with the OpenID 1.1 namespace in
 consumer

---
 openid/consumer/consumer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 275a08a..f8ee1cf 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -706,7 +706,7 @@ class GenericConsumer(object):
         # immediate mode by the presence of the user_setup_url
         # parameter.
         if message.isOpenID1():
-            user_setup_url = message.getArg(OPENID1_NS, 'user_setup_url')
+            user_setup_url = message.getArg(OPENID_NS, 'user_setup_url')
             if user_setup_url is not None:
                 raise SetupNeededError(user_setup_url)
 
@@ -833,14 +833,17 @@ class GenericConsumer(object):
             OPENID1_NS: basic_sig_fields,
         }
 
-        for field in require_fields[message.getOpenIDNamespace()]:
+        # All variants of OpenID 1 namespace have the same requirements
+        protocol_ns = OPENID1_NS if message.isOpenID1() else OPENID2_NS
+
+        for field in require_fields[protocol_ns]:
             if not message.hasKey(OPENID_NS, field):
                 raise ProtocolError('Missing required field %r' % (field,))
 
         signed_list_str = message.getArg(OPENID_NS, 'signed', no_default)
         signed_list = signed_list_str.split(',')
 
-        for field in require_sigs[message.getOpenIDNamespace()]:
+        for field in require_sigs[protocol_ns]:
             # Field is present and not in signed list
             if message.hasKey(OPENID_NS, field) and field not in signed_list:
                 raise ProtocolError('"%s" not signed' % (field,))
@@ -959,7 +962,7 @@ class GenericConsumer(object):
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-        to_match.local_id = resp_msg.getArg(OPENID1_NS, 'identity')
+        to_match.local_id = resp_msg.getArg(OPENID_NS, 'identity')
         # Restore delegate information from the initiation phase
         to_match.claimed_id = claimed_id
 
@@ -1325,7 +1328,7 @@ class GenericConsumer(object):
         """
         # If it's an OpenID 1 message, allow session_type to default
         # to None (which signifies "no-encryption")
-        session_type = assoc_response.getArg(OPENID1_NS, 'session_type')
+        session_type = assoc_response.getArg(OPENID_NS, 'session_type')
 
         # Handle the differences between no-encryption association
         # respones in OpenID 1 and 2:
-- 
2.43.0


From a9694f9549fd923a503b1e9d7d168c9330a78952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 20/74] fix: compare parameters of the last path segment when
 return_to is checked

---
 openid/consumer/consumer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index f8ee1cf..7bd6826 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -686,9 +686,9 @@ class GenericConsumer(object):
         app_parts = urlparse(urinorm.urinorm(return_to))
         msg_parts = urlparse(urinorm.urinorm(msg_return_to))
 
-        # (addressing scheme, network location, path) must be equal in
-        # both URLs.
-        for part in range(0, 3):
+        # (addressing scheme, network location, path, path parameters)
+        # must be equal in both URLs.
+        for part in range(0, 4):
             if app_parts[part] != msg_parts[part]:
                 return False
 
-- 
2.43.0


From 355a0a0b64bd8a04b38b28ce254ca637db5332fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 21/74] fix: fail with a FailureResponse on unusable positive
 assertions

---
 openid/consumer/consumer.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 7bd6826..0f20098 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -543,6 +543,10 @@ class TypeURIMismatch(ProtocolError):
         return s
 
 
+class MissingClaimedID(ProtocolError, RuntimeError):
+    """A protocol error arising from an OpenID 1 response without any known claimed identifier."""
+
+
 class ServerError(Exception):
     """Exception that is raised when the server returns a 400 response
     code to a direct request."""
@@ -657,7 +661,7 @@ class GenericConsumer(object):
         else:
             try:
                 return self._doIdRes(message, endpoint, return_to)
-            except (ProtocolError, DiscoveryFailure) as why:
+            except (ProtocolError, DiscoveryFailure, fetchers.HTTPFetchingError) as why:
                 return FailureResponse(endpoint, six.text_type(why))
 
     def _completeInvalid(self, message, endpoint, _):
@@ -683,8 +687,12 @@ class GenericConsumer(object):
 
         # The URL scheme, authority, and path MUST be the same between
         # the two URLs.
-        app_parts = urlparse(urinorm.urinorm(return_to))
-        msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        try:
+            app_parts = urlparse(urinorm.urinorm(return_to))
+            msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        except ValueError as why:
+            _LOGGER.warning("Verifying return_to URL: %s", why)
+            return False
 
         # (addressing scheme, network location, path, path parameters)
         # must be equal in both URLs.
@@ -802,7 +810,11 @@ class GenericConsumer(object):
                 raise ProtocolError(
                     'Association with %s expired' % (server_url,))
 
-            if not assoc.checkMessageSignature(message):
+            try:
+                signature_ok = assoc.checkMessageSignature(message)
+            except ValueError as why:
+                raise ProtocolError('Signature can not be checked: %s' % six.text_type(why))
+            if not signature_ok:
                 raise ProtocolError('Bad signature')
 
         else:
@@ -952,7 +964,7 @@ class GenericConsumer(object):
         claimed_id = resp_msg.getArg(BARE_NS, self.openid1_return_to_identifier_name)
 
         if endpoint is None and claimed_id is None:
-            raise RuntimeError(
+            raise MissingClaimedID(
                 'When using OpenID 1, the claimed ID must be supplied, '
                 'either by passing it through as a return_to parameter '
                 'or by using a session, and supplied to the GenericConsumer '
-- 
2.43.0


From 659661198800cf3b6231369fd1ee142565cd3f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 22/74] fix: handle messages which can not be parsed in
 consumer

---
 openid/consumer/consumer.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 0f20098..cd8307d 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -202,7 +202,8 @@ from openid.association import Association, SessionNegotiator, default_negotiato
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
-from openid.message import BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, Message, no_default
+from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, InvalidNamespace,
+                            InvalidOpenIDNamespace, Message, no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -240,12 +241,16 @@ def _httpResponseToMessage(response, server_url):
     @rtype: L{openid.message.Message}
 
     @raises openid.fetchers.HTTPFetchingError: if the server returned a
-        status of other than 200 or 400.
+        status of other than 200 or 400 or the response is not a valid message.
 
     @raises ServerError: if the server returned an OpenID error.
     """
     # Should this function be named Message.fromHTTPResponse instead?
-    response_message = Message.fromKVForm(response.body)
+    try:
+        response_message = Message.fromKVForm(response.body)
+    except (ValueError, InvalidNamespace) as why:
+        raise fetchers.HTTPFetchingError('invalid response from server %s: %s' % (server_url, why))
+
     if response.status == 400:
         raise ServerError.fromMessage(response_message)
 
@@ -410,8 +415,12 @@ class Consumer(object):
 
         endpoint = self.session.get(self._token_key)
 
-        message = Message.fromPostArgs(query)
-        response = self.consumer.complete(message, endpoint, current_url)
+        try:
+            message = Message.fromPostArgs(query)
+        except (InvalidOpenIDNamespace, InvalidNamespace) as why:
+            response = FailureResponse(endpoint, six.text_type(why))
+        else:
+            response = self.consumer.complete(message, endpoint, current_url)
 
         try:
             del self.session[self._token_key]
-- 
2.43.0


From 34ea55d0449034f46e09dfcc121f2d56cb504b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 23/74] fix: reject associations of a different type than
 requested

---
 openid/consumer/consumer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index cd8307d..8dc48a2 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1276,6 +1276,8 @@ class GenericConsumer(object):
 
         try:
             assoc = self._extractAssociation(response, assoc_session)
+            if assoc.assoc_type != assoc_type:
+                raise ProtocolError('Association type mismatch. Expected %r, got %r' % (assoc_type, assoc.assoc_type))
         except KeyError as why:
             _LOGGER.exception('Missing required parameter in response from %s: %s', endpoint.server_url, why)
             return None
-- 
2.43.0


From 177fdd0a110a6b40d8110086edd47b99d656ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 24/74] fix: begin without association if no association type
 is allowed

---
 openid/consumer/consumer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 8dc48a2..a4179f0 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1265,6 +1265,10 @@ class GenericConsumer(object):
 
         @raises ServerError: when the remote OpenID server returns an error.
         """
+        if assoc_type is None:
+            # The negotiator does not allow any association type, only stateless mode is possible.
+            return None
+
         assoc_session, args = self._createAssociateRequest(
             endpoint, assoc_type, session_type)
 
-- 
2.43.0


From a45081b58ba4e2b649f5aeb063173cb5f6155802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 25/74] fix: hash Diffie-Hellman shared secret without zero
 padding

---
 openid/dh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index d54817c..6cb9629 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -135,7 +135,8 @@ class DiffieHellman(object):
 
         # The DH secret must be `btwoc` compatible.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        # The exchanged secret may be padded by zeros, so it has to be encoded as an integer.
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         hashed_dh_shared = hash_func(dh_shared)
         return strxor(secret, hashed_dh_shared)
@@ -154,7 +155,8 @@ class DiffieHellman(object):
 
         # The DH secret must be `btwoc` compatible.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        # The exchanged secret may be padded by zeros, so it has to be encoded as an integer.
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         digest = hashes.Hash(algorithm, backend=default_backend())
         digest.update(dh_shared)
-- 
2.43.0


From 187228e4d4d5a417c7ff09c3701fa154b4f82231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:50 +0000
Subject: [PATCH 26/74] fix: append query arguments in front of the fragment of
 a URL

---
 openid/oidutil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/oidutil.py b/openid/oidutil.py
index 884d38f..9986d6b 100644
--- a/openid/oidutil.py
+++ b/openid/oidutil.py
@@ -86,6 +86,9 @@ def appendArgs(url, args):
     if len(args) == 0:
         return url
 
+    # The arguments belong to the query, i.e. in front of the fragment.
+    url, fragment_sep, fragment = url.partition('#')
+
     if '?' in url:
         sep = '&'
     else:
@@ -102,7 +105,7 @@ def appendArgs(url, args):
     # `urlencode` returns `str` in both py27 and py3+. We need to convert it to six.text_type.
     if not isinstance(encoded_args, six.text_type):
         encoded_args = encoded_args.decode('utf-8')
-    return '%s%s%s' % (url, sep, encoded_args)
+    return '%s%s%s%s%s' % (url, sep, encoded_args, fragment_sep, fragment)
 
 
 def toBase64(s):
-- 
2.43.0


From fd9009ef46ef0d28c82fdc000e95abbf6be8ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 27/74] fix: do not crash discovery on pages with unknown
 encoding

---
 openid/yadis/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index c4678a7..f5a6515 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -138,7 +138,8 @@ def whereIsYadis(resp):
 
             try:
                 buff = StringIO(resp.body.decode(encoding))
-            except UnicodeError:
+            except (LookupError, UnicodeError):
+                # Unknown encoding or the body is not in the encoding.
                 # Keep encoded version in case yadis location can be found before encoding shut this up.
                 # Possible errors will be caught lower.
                 buff = BytesIO(resp.body)
-- 
2.43.0


From ac1cde30433f258ee6bdbfc29a227ef576e56b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 28/74] fix: recognize XRDS content type with parameters in
 discovery result

---
 openid/yadis/discover.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index f5a6515..d9605e6 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -52,7 +52,12 @@ class DiscoveryResult(object):
 
     def isXRDS(self):
         """Is the response text supposed to be an XRDS document?"""
-        return (self.usedYadisLocation() or self.content_type == YADIS_CONTENT_TYPE)
+        return self.usedYadisLocation() or _is_xrds_content_type(self.content_type)
+
+
+def _is_xrds_content_type(content_type):
+    """Is this Content-Type header value, with or without parameters, the one of XRDS document?"""
+    return bool(content_type) and content_type.split(';', 1)[0].strip().lower() == YADIS_CONTENT_TYPE
 
 
 def discover(uri):
@@ -115,7 +120,7 @@ def whereIsYadis(resp):
 
     # According to the spec, the content-type header must be an exact
     # match, or else we have to look for an indirection.
-    if content_type and content_type.split(';', 1)[0].lower() == YADIS_CONTENT_TYPE:
+    if _is_xrds_content_type(content_type):
         return resp.final_url
     else:
         # Try the header
-- 
2.43.0


From 872e70c82c2282f66db14627e1e370f369eb6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 29/74] fix: ignore empty Type elements in XRDS

---
 openid/yadis/etxrd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 9e97e4c..901d1a0 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -274,6 +274,9 @@ def getTypeURIs(service_element):
     output = []
     for type_element in service_element.findall(type_tag):
         type_uri = type_element.text
+        if type_uri is None:
+            # Empty element
+            continue
         # Attribute `text` returns str in both python 2 and 3, convert to text_type in 2.7
         if not isinstance(type_uri, six.text_type):
             type_uri = type_uri.decode('utf-8')
-- 
2.43.0


From 8dbc257ff8e643610e202bc1ee4a961f11e3fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:19 +0000
Subject: [PATCH 30/74] fix: report invalid CanonicalIDs of XRDS as XRDSError

---
 openid/yadis/etxrd.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 901d1a0..d689882 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -171,22 +171,27 @@ def getCanonicalID(iname, xrd_tree):
     xrd_list.reverse()
 
     try:
-        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text)
+        canonicalID = xrd_list[0].findall(canonicalID_tag)[0].text
     except IndexError:
         return None
+    if not canonicalID:
+        return None
+    canonicalID = xri.XRI(canonicalID)
 
     childID = canonicalID.lower()
 
     for xrd in xrd_list[1:]:
-        # XXX: can't use rsplit until we require python >= 2.4.
-        parent_sought = childID[:childID.rindex('!')]
-        parent = xri.XRI(xrd.findtext(canonicalID_tag))
-        if parent_sought != parent.lower():
+        parent_sought, bang, _ = childID.rpartition('!')
+        parent = xri.XRI(xrd.findtext(canonicalID_tag) or '')
+        if not bang or parent_sought != parent.lower():
             raise XRDSFraud("%r can not come from %s" % (childID, parent))
 
         childID = parent_sought
 
-    root = xri.rootAuthority(iname)
+    try:
+        root = xri.rootAuthority(iname)
+    except (IndexError, ValueError):
+        raise XRDSError("Root authority of %r not found" % (iname,))
     if not xri.providerIsAuthoritative(root, childID):
         raise XRDSFraud("%r can not come from root %r" % (childID, root))
 
-- 
2.43.0


From ec06b3ef0d18835686340e4d4ba48d1f8de5f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 31/74] fix: no provider is authoritative for CanonicalID
 without segments

---
 openid/yadis/xri.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 4712c6d..32fb6fc 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -84,10 +84,8 @@ def providerIsAuthoritative(providerID, canonicalID):
 
     @returntype: bool
     """
-    # XXX: can't use rsplit until we require python >= 2.4.
-    lastbang = canonicalID.rindex('!')
-    parent = canonicalID[:lastbang]
-    return parent == providerID
+    parent, bang, _ = canonicalID.rpartition('!')
+    return bool(bang) and parent == providerID
 
 
 def rootAuthority(xri):
-- 
2.43.0


From d7a2aa2fbd28e2e56c759dcbb26c1baac3369cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:24 +0000
Subject: [PATCH 32/74] fix: make YadisServiceManager iterable in Python 3

---
 openid/yadis/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/yadis/manager.py b/openid/yadis/manager.py
index 4da7c64..a80230d 100644
--- a/openid/yadis/manager.py
+++ b/openid/yadis/manager.py
@@ -39,6 +39,8 @@ class YadisServiceManager(object):
         else:
             return self._current
 
+    __next__ = next
+
     def current(self):
         """Return the current service.
 
-- 
2.43.0


From 4c33848674084615b7e21e304561a180ab362a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 33/74] fix: raise DiscoveryFailure for identifiers which are
 not valid URLs

---
 openid/consumer/discover.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 8689bf7..6aac3d1 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -449,7 +449,10 @@ def discoverNoYadis(uri):
 
 
 def discoverURI(uri):
-    parsed = urlparse(uri)
+    try:
+        parsed = urlparse(uri)
+    except ValueError as why:
+        raise DiscoveryFailure('Invalid identifier: %s' % six.text_type(why), None)
     if parsed[0] and parsed[1]:
         if parsed[0] not in ['http', 'https']:
             raise DiscoveryFailure('URI scheme is not HTTP or HTTPS', None)
-- 
2.43.0


From 96bae68e311e2a3d17f2fabbdeeeaec139d2fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:24 +0000
Subject: [PATCH 34/74] fix: send POST requests with empty body in fetchers

---
 openid/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 8a10993..9a305c9 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -423,7 +423,7 @@ class HTTPLib2Fetcher(HTTPFetcher):
         """
         assert body is None or isinstance(body, six.binary_type)
 
-        if body:
+        if body is not None:
             method = 'POST'
         else:
             method = 'GET'
@@ -475,7 +475,7 @@ class RequestsFetcher(HTTPFetcher):
         """
         assert body is None or isinstance(body, six.binary_type)
 
-        if body:
+        if body is not None:
             method = 'POST'
         else:
             method = 'GET'
-- 
2.43.0


From 99b137a45229bec0df7c518ca310822269ca79bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 35/74] fix: do not let servers choose the final URL in
 HTTPLib2Fetcher

---
 openid/fetchers.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 9a305c9..2645743 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -441,18 +441,11 @@ class HTTPLib2Fetcher(HTTPFetcher):
 
         # Translate the httplib2 response to our HTTP response abstraction
 
-        # When a 400 is returned, there is no "content-location"
-        # header set. This seems like a bug to me. I can't think of a
-        # case where we really care about the final URL when it is an
-        # error response, but being careful about it can't hurt.
-        try:
-            final_url = httplib2_response['content-location']
-        except KeyError:
-            # We're assuming that no redirects occurred
-            assert not httplib2_response.previous
-
-            # And this should never happen for a successful response
-            assert httplib2_response.status != 200
+        # The "content-location" can not be used as it may be set by the
+        # server to any URL. Use the target of the last redirect instead.
+        if httplib2_response.previous is not None:
+            final_url = httplib2_response.previous['location']
+        else:
             final_url = url
 
         return HTTPResponse(
-- 
2.43.0


From 8d6d2df79299f2625c934e0917807e7a95027347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 36/74] fix: follow relative redirects in CurlHTTPFetcher

---
 openid/fetchers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 2645743..28e26f4 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -7,6 +7,7 @@ import time
 import six
 from six import BytesIO
 from six.moves.urllib.error import HTTPError as UrllibHTTPError
+from six.moves.urllib.parse import urljoin
 from six.moves.urllib.request import Request, urlopen
 
 import openid
@@ -364,10 +365,12 @@ class CurlHTTPFetcher(HTTPFetcher):
                 response_headers = self._parseHeaders(response_header_data)
                 code = c.getinfo(pycurl.RESPONSE_CODE)
                 if code in [301, 302, 303, 307]:
-                    url = response_headers.get('location')
-                    if url is None:
+                    location = response_headers.get('location')
+                    if location is None:
                         raise HTTPError(
                             'Redirect (%s) returned without a location' % code)
+                    # The location may be relative
+                    url = urljoin(url, location)
 
                     # Redirects are always GETs
                     c.setopt(pycurl.POST, 0)
-- 
2.43.0


From 6961d1457ce1a74ea5433870e62ed5352d16db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 37/74] fix: refuse responses from other schemes after
 redirects in Urllib2Fetcher

---
 openid/fetchers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 28e26f4..7106925 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -231,6 +231,9 @@ class Urllib2Fetcher(HTTPFetcher):
         try:
             f = self.urlopen(req)
             try:
+                if not _allowedURL(f.geturl()):
+                    # Redirected out of HTTP
+                    raise ValueError('Bad URL scheme: %r' % (f.geturl(),))
                 return self._makeResponse(f)
             finally:
                 f.close()
-- 
2.43.0


From 740df46de8d92569a173f5ead899c3e0e00a44d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 38/74] fix: find response headers case-insensitively in
 discovery

---
 openid/yadis/discover.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index d9605e6..01d695b 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -60,6 +60,14 @@ def _is_xrds_content_type(content_type):
     return bool(content_type) and content_type.split(';', 1)[0].strip().lower() == YADIS_CONTENT_TYPE
 
 
+def _get_header(resp, name):
+    """Return value of the response header or None. Names of headers are case-insensitive."""
+    for key, value in resp.headers.items():
+        if key.lower() == name.lower():
+            return value
+    return None
+
+
 def discover(uri):
     """Discover services for a given URI.
 
@@ -86,7 +94,7 @@ def discover(uri):
 
     # Attempt to find out where to go to discover the document
     # or if we already have it
-    result.content_type = resp.headers.get('content-type')
+    result.content_type = _get_header(resp, 'content-type')
 
     result.xrds_uri = whereIsYadis(resp)
 
@@ -98,7 +106,7 @@ def discover(uri):
                 'Got status %r' % (resp.status,), resp)
             exc.identity_url = result.normalized_uri
             raise exc
-        result.content_type = resp.headers.get('content-type')
+        result.content_type = _get_header(resp, 'content-type')
 
     result.response_text = resp.body
     return result
@@ -116,7 +124,7 @@ def whereIsYadis(resp):
     """
     # Attempt to find out where to go to discover the document
     # or if we already have it
-    content_type = resp.headers.get('content-type')
+    content_type = _get_header(resp, 'content-type')
 
     # According to the spec, the content-type header must be an exact
     # match, or else we have to look for an indirection.
@@ -124,7 +132,7 @@ def whereIsYadis(resp):
         return resp.final_url
     else:
         # Try the header
-        yadis_loc = resp.headers.get(YADIS_HEADER_NAME.lower())
+        yadis_loc = _get_header(resp, YADIS_HEADER_NAME)
 
         if not yadis_loc:
             # Parse as HTML if the header is missing.
-- 
2.43.0


From 2e68fccc8d6af8f57800399010c2681fbd955f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:33 +0000
Subject: [PATCH 39/74] fix: send update_url in AX fetch request

---
 openid/extensions/ax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index e6ccaf2..8f81e2e 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -261,6 +261,9 @@ class FetchRequest(AXMessage):
         if if_available:
             ax_args['if_available'] = ','.join(if_available)
 
+        if self.update_url:
+            ax_args['update_url'] = self.update_url
+
         return ax_args
 
     def getRequiredAttrs(self):
-- 
2.43.0


From 50aec34d5bb1db2e2ea2afde592fa6b102b2d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 40/74] fix: fail with AXError if update_url can not be
 validated because of invalid realm

---
 openid/extensions/ax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 8f81e2e..49ac0a8 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -318,7 +318,7 @@ class FetchRequest(AXMessage):
                 raise AXError("Cannot validate update_url %r against absent realm" % self.update_url)
 
             tr = TrustRoot.parse(realm)
-            if not tr.validateURL(self.update_url):
+            if tr is None or not tr.validateURL(self.update_url):
                 raise AXError("Update URL %r failed validation against realm %r" %
                               (self.update_url, realm,))
 
-- 
2.43.0


From 6d6fb5c9c9034973948284f12109d69b83b2f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 41/74] fix: ignore AX responses which are not signed

---
 openid/extensions/ax.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 49ac0a8..6c3dd1e 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -702,6 +702,9 @@ class FetchResponse(AXKeyValueMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            # AX data are not signed
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
@@ -816,6 +819,9 @@ class StoreResponse(AXMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            # AX data are not signed
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
-- 
2.43.0


From 8a12552cda5f9c5488078b3c1cae73cf5f6cddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 42/74] fix: parse AX store responses

---
 openid/extensions/ax.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 6c3dd1e..0e6e33c 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -798,6 +798,18 @@ class StoreResponse(AXMessage):
 
         return ax_args
 
+    def parseExtensionArgs(self, ax_args):
+        """Given attribute exchange arguments, populate this StoreResponse.
+
+        @raises NotAXMessage: If ax_args does not include an Attribute Exchange mode.
+        @raises AXError: If the mode is not a mode of store response.
+        """
+        if ax_args.get('mode') == self.FAILURE_MODE:
+            self.mode = self.FAILURE_MODE
+            self.error_message = ax_args.get('error')
+        else:
+            self._checkMode(ax_args)
+
     @classmethod
     def fromSuccessResponse(cls, success_response, signed=True):
         """Construct a StoreResponse object from an OpenID library
-- 
2.43.0


From 7b83621495d4f0743b88f270768ee1bcf38e9fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 43/74] fix: compare the path including empty parameters when
 return_to is checked

---
 openid/consumer/consumer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index a4179f0..43447cd 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -195,7 +195,7 @@ import warnings
 
 import six
 from cryptography.hazmat.primitives import hashes
-from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse
+from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse, urlsplit
 
 from openid import cryptutil, fetchers, oidutil, urinorm
 from openid.association import Association, SessionNegotiator, default_negotiator
@@ -697,15 +697,15 @@ class GenericConsumer(object):
         # The URL scheme, authority, and path MUST be the same between
         # the two URLs.
         try:
-            app_parts = urlparse(urinorm.urinorm(return_to))
-            msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+            app_parts = urlsplit(urinorm.urinorm(return_to))
+            msg_parts = urlsplit(urinorm.urinorm(msg_return_to))
         except ValueError as why:
             _LOGGER.warning("Verifying return_to URL: %s", why)
             return False
 
-        # (addressing scheme, network location, path, path parameters)
-        # must be equal in both URLs.
-        for part in range(0, 4):
+        # (addressing scheme, network location, path) must be equal in
+        # both URLs.
+        for part in range(0, 3):
             if app_parts[part] != msg_parts[part]:
                 return False
 
-- 
2.43.0


From 3bd209073cf6611d21ce09cd9af476f677fe89de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:14 +0000
Subject: [PATCH 44/74] fix: encode unsuccessful association responses as
 direct errors

---
 openid/server/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 372b7c3..d552f8b 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1361,7 +1361,8 @@ class Encoder(object):
     def _encode(self, response, encode_as):
         if encode_as == ENCODE_KVFORM:
             wr = self.responseFactory(body=response.encodeToKVForm())
-            if isinstance(response, Exception):
+            # Unsuccessful association response is a direct error response as well.
+            if isinstance(response, Exception) or response.fields.hasKey(OPENID_NS, 'error_code'):
                 wr.code = HTTP_ERROR
         elif encode_as == ENCODE_URL:
             location = response.encodeToURL()
-- 
2.43.0


From 0883280fc85ed5775585ea9a028059e2220f9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:18 +0000
Subject: [PATCH 45/74] fix: refuse associations with lifetime which can not be
 stored

---
 openid/consumer/consumer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 43447cd..7929c61 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1410,6 +1410,9 @@ class GenericConsumer(object):
             expires_in = int(expires_in_str)
         except ValueError as why:
             raise ProtocolError('Invalid expires_in field: %s' % six.text_type(why))
+        # Stores use 4-byte integers
+        if abs(expires_in) >= 2 ** 31:
+            raise ProtocolError('Invalid expires_in field: value out of range')
 
         # OpenID 1 has funny association session behaviour.
         if assoc_response.isOpenID1():
-- 
2.43.0


From 8f12c1abaf77a4bd175a65f7e27740fe7a4c5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:41 +0000
Subject: [PATCH 46/74] fix: refuse OpenID 1 responses without claimed ID to
 requests for OP identifier

---
 openid/consumer/consumer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 7929c61..808f87e 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -972,14 +972,16 @@ class GenericConsumer(object):
     def _verifyDiscoveryResultsOpenID1(self, resp_msg, endpoint):
         claimed_id = resp_msg.getArg(BARE_NS, self.openid1_return_to_identifier_name)
 
-        if endpoint is None and claimed_id is None:
+        if endpoint is not None and claimed_id is None:
+            claimed_id = endpoint.claimed_id
+
+        # Endpoint of an OP identifier does not have a claimed ID
+        if claimed_id is None:
             raise MissingClaimedID(
                 'When using OpenID 1, the claimed ID must be supplied, '
                 'either by passing it through as a return_to parameter '
                 'or by using a session, and supplied to the GenericConsumer '
                 'as the argument to complete()')
-        elif endpoint is not None and claimed_id is None:
-            claimed_id = endpoint.claimed_id
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-- 
2.43.0


From e7d7e101d5d34b3bb0bf000f1e77292be2513bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:47 +0000
Subject: [PATCH 47/74] fix: refuse responses with return_to which is not a
 valid URL

---
 openid/consumer/consumer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 808f87e..3c0129b 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -880,7 +880,10 @@ class GenericConsumer(object):
         if return_to is None:
             raise ProtocolError('Response has no return_to')
 
-        parsed_url = urlparse(return_to)
+        try:
+            parsed_url = urlparse(return_to)
+        except ValueError as why:
+            raise ProtocolError('Invalid return_to: %s' % six.text_type(why))
         rt_query = parsed_url[4]
         parsed_args = parse_qsl(rt_query, keep_blank_values=True)
 
-- 
2.43.0


From d7cb140555219ce40ab5d7a7b0aa6149f739ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:01 +0000
Subject: [PATCH 48/74] fix: do not redirect errors to return_to which is not a
 URL

---
 openid/server/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index d552f8b..64121ef 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1760,7 +1760,8 @@ class ProtocolError(Exception):
             I cannot be encoded as a protocol message and should be
             displayed to the user.
         """
-        if self.hasReturnTo():
+        # The user can't be sent to return_to which is not a URL.
+        if self.hasReturnTo() and TrustRoot.parse(self.getReturnTo()):
             if self.openid_message.isOpenID2() and \
                len(self.encodeToURL()) > OPENID1_URL_LIMIT:
                 # Message can be encoded as HTML form only if it's OpenID 2.0.
-- 
2.43.0


From 9d9933e649bec82f45ce871e1c4fc83e89cae2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:53 +0000
Subject: [PATCH 49/74] fix: refuse to sign fields with comma in their names

---
 openid/association.py   | 3 +++
 openid/server/server.py | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/openid/association.py b/openid/association.py
index 9025ff8..df1f0ad 100644
--- a/openid/association.py
+++ b/openid/association.py
@@ -503,6 +503,9 @@ class Association(object):
         message_keys = signed_message.toPostArgs().keys()
         signed_list = [k[7:] for k in message_keys
                        if k.startswith('openid.')]
+        for key in signed_list:
+            if ',' in key:
+                raise ValueError("Field with comma in its name can't be signed: %r" % (key, ))
         signed_list.append('signed')
         signed_list.sort()
         signed_message.setArg(OPENID_NS, 'signed', ','.join(signed_list))
diff --git a/openid/server/server.py b/openid/server/server.py
index 64121ef..d3c85d0 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -127,7 +127,7 @@ from copy import deepcopy
 import six
 from cryptography.hazmat.primitives import hashes
 
-from openid import cryptutil, kvform, oidutil
+from openid import cryptutil, oidutil
 from openid.association import Association, default_negotiator, getSecretSize
 from openid.dh import DiffieHellman
 from openid.message import (IDENTIFIER_SELECT, OPENID1_URL_LIMIT, OPENID2_NS, OPENID_NS, InvalidNamespace,
@@ -1245,7 +1245,7 @@ class Signatory(object):
 
         try:
             signed_response.fields = assoc.signMessage(signed_response.fields)
-        except kvform.KVFormError as err:
+        except ValueError as err:
             raise EncodingError(response, explanation=six.text_type(err))
         return signed_response
 
-- 
2.43.0


From 13770048f9e333b61bb25373b943e74102432bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:39 +0000
Subject: [PATCH 50/74] fix: do not merge port 0 with the default port

---
 openid/server/trustroot.py | 2 +-
 openid/urinorm.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 88f1f2a..2f5a0f6 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -317,7 +317,7 @@ class TrustRoot(object):
             # Use "www." in place of the star
             assert self.host.startswith('.'), self.host
             www_domain = 'www' + self.host
-            if self.port:
+            if self.port is not None:
                 port = ':%s' % self.port
             else:
                 port = ''
diff --git a/openid/urinorm.py b/openid/urinorm.py
index 4c0bcab..47fee7a 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -113,7 +113,7 @@ def urinorm(uri):
         port = ''
 
     netloc = hostname
-    if port:
+    if port != '':
         netloc = netloc + ':' + six.text_type(port)
     userinfo_chunks = [i for i in (split_uri.username, split_uri.password) if i is not None]
     if userinfo_chunks:
-- 
2.43.0


From 449933d06717543fdcac1b224a237f11ab57cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:00 +0000
Subject: [PATCH 51/74] fix: report unusable Diffie-Hellman parameters as
 ValueError

---
 openid/dh.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 6cb9629..b21bf64 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -5,6 +5,7 @@ import base64
 import warnings
 
 import six
+from cryptography.exceptions import InternalError
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives import hashes
 from cryptography.hazmat.primitives.asymmetric.dh import DHParameterNumbers, DHPublicNumbers
@@ -53,7 +54,10 @@ class DiffieHellman(object):
             raise ValueError("Modulus is not an odd prime.")
         self.parameter_numbers = DHParameterNumbers(modulus, generator)
         parameters = self.parameter_numbers.parameters(default_backend())
-        self.private_key = parameters.generate_private_key()
+        try:
+            self.private_key = parameters.generate_private_key()
+        except InternalError as error:
+            raise ValueError("Parameters can't be used for key exchange: {}".format(error))
 
     @classmethod
     def fromDefaults(cls):
@@ -127,7 +131,10 @@ class DiffieHellman(object):
         @rtype: six.binary_type
         """
         public_numbers = DHPublicNumbers(cryptutil.base64ToLong(public_key), self.parameter_numbers)
-        return self.private_key.exchange(public_numbers.public_key(default_backend()))
+        try:
+            return self.private_key.exchange(public_numbers.public_key(default_backend()))
+        except InternalError as error:
+            raise ValueError("Public key can't be used for key exchange: {}".format(error))
 
     def xorSecret(self, composite, secret, hash_func):
         warnings.warn("Method 'xorSecret' is deprecated, use 'xor_secret' instead.", DeprecationWarning)
-- 
2.43.0


From 4190531e5f9c10b0c1a1b9c906fa692232e3ea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:00 +0000
Subject: [PATCH 52/74] fix: refuse OpenID 1 requests with empty identity

---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index d3c85d0..a7f79b5 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -598,7 +598,7 @@ class CheckIDRequest(OpenIDRequest):
 
         # Check the identifier validity. In case of error, create protocol error from the message in the argument.
         if self.message.isOpenID1():
-            if identity is None:
+            if not identity:
                 s = "OpenID 1 message did not contain openid.identity"
                 raise ProtocolError(message, text=s)
         else:
-- 
2.43.0


From c56756cf88b58ccddf9e4f7bbe2ccf1281a0e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 53/74] fix: do not fail on concurrent changes in cleanup of
 MemoryStore

---
 openid/store/memstore.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 21db7d2..9872023 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -45,13 +45,12 @@ class ServerAssocs(object):
 
         @return: tuple of (removed associations, remaining associations)
         """
-        remove = []
-        for handle, assoc in six.iteritems(self.assocs):
-            if assoc.getExpiresIn() == 0:
-                remove.append(handle)
-        for handle in remove:
-            del self.assocs[handle]
-        return len(remove), len(self.assocs)
+        # Other threads may change the associations meanwhile, so iterate over a copy.
+        removed = 0
+        for handle, assoc in list(self.assocs.items()):
+            if assoc.getExpiresIn() == 0 and self.remove(handle):
+                removed += 1
+        return removed, len(self.assocs)
 
 
 class MemoryStore(object):
@@ -68,8 +67,7 @@ class MemoryStore(object):
         try:
             return self.server_assocs[server_url]
         except KeyError:
-            assocs = self.server_assocs[server_url] = ServerAssocs()
-            return assocs
+            return self.server_assocs.setdefault(server_url, ServerAssocs())
 
     def storeAssociation(self, server_url, assoc):
         assocs = self._getServerAssocs(server_url)
@@ -99,19 +97,19 @@ class MemoryStore(object):
     def cleanupNonces(self):
         now = time.time()
         expired = []
-        for anonce in self.nonces:
+        # Other threads may change the nonces meanwhile, so iterate over a copy.
+        for anonce in list(self.nonces):
             if abs(anonce[1] - now) > nonce.SKEW:
-                # removing items while iterating over the set could be bad.
                 expired.append(anonce)
 
         for anonce in expired:
-            del self.nonces[anonce]
+            self.nonces.pop(anonce, None)
         return len(expired)
 
     def cleanupAssociations(self):
         remove_urls = []
         removed_assocs = 0
-        for server_url, assocs in six.iteritems(self.server_assocs):
+        for server_url, assocs in list(self.server_assocs.items()):
             removed, remaining = assocs.cleanup()
             removed_assocs += removed
             if not remaining:
@@ -119,7 +117,7 @@ class MemoryStore(object):
 
         # Remove entries from server_assocs that had none remaining.
         for server_url in remove_urls:
-            del self.server_assocs[server_url]
+            self.server_assocs.pop(server_url, None)
         return removed_assocs
 
     def __eq__(self, other):
-- 
2.43.0


From 31a8adf3023fc8b636a19fd275f65bf6e280a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:01 +0000
Subject: [PATCH 54/74] fix: ignore foreign files in nonce cleanup of
 FileOpenIDStore

---
 openid/store/filestore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 189b5dc..15fde10 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -406,7 +406,11 @@ class FileOpenIDStore(OpenIDStore):
         # Check all nonces for expiry
         for nonce_fname in nonces:
             timestamp = nonce_fname.split('-', 1)[0]
-            timestamp = int(timestamp, 16)
+            try:
+                timestamp = int(timestamp, 16)
+            except ValueError:
+                # Not a nonce
+                continue
             if abs(timestamp - now) > nonce.SKEW:
                 filename = os.path.join(self.nonce_dir, nonce_fname)
                 _removeIfPresent(filename)
-- 
2.43.0


From d30dfb105bdd3ff72cf31ac059f1b52cfaa4ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 55/74] fix: remove nothing but the fragment from identifiers

urldefrag() drops an empty parameter section as well, so 'http://a/;#f' and
'http://a/#f' became the same identifier.
---
 openid/consumer/consumer.py | 4 ++--
 openid/consumer/discover.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 3c0129b..1565d31 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -195,7 +195,7 @@ import warnings
 
 import six
 from cryptography.hazmat.primitives import hashes
-from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse, urlsplit
+from six.moves.urllib.parse import parse_qsl, urlparse, urlsplit
 
 from openid import cryptutil, fetchers, oidutil, urinorm
 from openid.association import Association, SessionNegotiator, default_negotiator
@@ -1034,7 +1034,7 @@ class GenericConsumer(object):
 
         # Fragments do not influence discovery, so we can't compare a
         # claimed identifier with a fragment to discovered information.
-        defragged_claimed_id, _ = urldefrag(to_match.claimed_id)
+        defragged_claimed_id = to_match.claimed_id.partition('#')[0]
         if defragged_claimed_id != endpoint.claimed_id:
             raise ProtocolError(
                 'Claimed ID does not match (different subjects!), '
diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 6aac3d1..709aebd 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -6,7 +6,7 @@ import logging
 import six
 from lxml.etree import LxmlError
 from lxml.html import document_fromstring
-from six.moves.urllib.parse import urldefrag, urlparse
+from six.moves.urllib.parse import urlparse
 
 from openid import fetchers, urinorm
 from openid.message import OPENID1_NS as OPENID_1_0_MESSAGE_NS, OPENID2_NS as OPENID_2_0_MESSAGE_NS
@@ -88,7 +88,7 @@ class OpenIDServiceEndpoint(object):
         if self.claimed_id is None:
             return None
         else:
-            return urldefrag(self.claimed_id)[0]
+            return self.claimed_id.partition('#')[0]
 
     def compatibilityMode(self):
         return self.preferredNamespace() != OPENID_2_0_MESSAGE_NS
@@ -307,7 +307,7 @@ def normalizeURL(url):
     except ValueError as why:
         raise DiscoveryFailure('Normalizing identifier: %s' % six.text_type(why), None)
     else:
-        return urldefrag(normalized)[0]
+        return normalized.partition('#')[0]
 
 
 def normalizeXRI(xri):
-- 
2.43.0


From 09e38c32bc917e1864224416c60d00db90e385b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:53 +0000
Subject: [PATCH 56/74] fix: refuse URLs with a port and no hostname in urinorm

'http://:80//example.com/' was normalized to 'http://example.com/'.
---
 openid/urinorm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 47fee7a..f1e2e4e 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -116,6 +116,9 @@ def urinorm(uri):
     if port != '':
         netloc = netloc + ':' + six.text_type(port)
     userinfo_chunks = [i for i in (split_uri.username, split_uri.password) if i is not None]
+    if not hostname and not userinfo_chunks:
+        # Mere port - without the port, a part of the path would become a hostname.
+        raise ValueError('Not an absolute URI: {!r}'.format(uri))
     if userinfo_chunks:
         userinfo = ':'.join(userinfo_chunks)
         _check_disallowed_characters(userinfo, 'userinfo')
-- 
2.43.0


From 437a8b034c4e2dad9513ab9d885001d453bafded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:47 +0000
Subject: [PATCH 57/74] fix: ignore comments and processing instructions in
 XRDS

Text of an element was cut at the first comment, so '<URI>http://a<!-- -->.b/</URI>'
declared a service at 'http://a'.
---
 openid/yadis/etxrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index d689882..877d41c 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -54,7 +54,7 @@ def parseXRDS(text):
     @raises XRDSError: When there is a parse error or the document does
         not contain an XRDS.
     """
-    parser = etree.XMLParser(resolve_entities=False)
+    parser = etree.XMLParser(resolve_entities=False, remove_comments=True, remove_pis=True)
     try:
         element = etree.XML(text, parser)
     except etree.Error as why:
-- 
2.43.0


From a234900fa4ba2c5a38eb3eae7b5da56beab9dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:42 +0000
Subject: [PATCH 58/74] fix: discovered services have the normalized claimed
 identifier

The final URL of discovery was normalized in the returned identifier, but not in
the services, so a login with an identity URL redirected to a URL with a fragment
or an upper case host failed or had an unnormalized identifier.
---
 openid/consumer/discover.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 709aebd..bf97574 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -462,6 +462,10 @@ def discoverURI(uri):
     uri = normalizeURL(uri)
     claimed_id, openid_services = discoverYadis(uri)
     claimed_id = normalizeURL(claimed_id)
+    for service in openid_services:
+        # Services of an OP identifier have no claimed identifier
+        if service.claimed_id is not None:
+            service.claimed_id = claimed_id
     return claimed_id, openid_services
 
 
-- 
2.43.0


From dce6e1555375634e8edebb038ad89eb4d00dfdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:21 +0000
Subject: [PATCH 59/74] fix: refuse unterminated IP literals in urinorm

A bracket in the user info made up for the missing one.
---
 openid/urinorm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index f1e2e4e..84a20ad 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -85,8 +85,11 @@ def urinorm(uri):
     hostname = split_uri.hostname
     if hostname is None:
         hostname = ''
-    if split_uri.netloc.rpartition('@')[2].startswith('['):
+    hostinfo = split_uri.netloc.rpartition('@')[2]
+    if hostinfo.startswith('['):
         # IP literal - `hostname` is stripped of its brackets
+        if ']' not in hostinfo:
+            raise ValueError('Invalid hostname in {!r}'.format(split_uri.netloc))
         _check_disallowed_characters(hostname, 'hostname')
         hostname = '[' + hostname.lower() + ']'
     else:
-- 
2.43.0


From 56b9dc1c41af4c261c176661ab1ab1bf508f2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 60/74] fix: do not fail on control characters in attributes of
 HTML pages

Values with control characters can not be returned to XPath from extension functions.
---
 openid/yadis/parsehtml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openid/yadis/parsehtml.py b/openid/yadis/parsehtml.py
index d35c5a3..fbd10d4 100644
--- a/openid/yadis/parsehtml.py
+++ b/openid/yadis/parsehtml.py
@@ -39,10 +39,10 @@ def findHTMLMeta(stream):
     if html.getroot() is None:
         raise MetaNotFound("Couldn't parse HTML page.")
 
-    # Create a XPath evaluator with a local function to lowercase values.
-    xpath_evaluator = etree.XPathEvaluator(html, extensions={(None, 'lower-case'): xpath_lower_case})
-    # Find YADIS meta tag, case insensitive to the header name.
-    yadis_headers = xpath_evaluator('/html/head/meta[lower-case(@http-equiv)="{}"]'.format(YADIS_HEADER_NAME.lower()))
+    # Find YADIS meta tag, case insensitive to the header name. The values are compared out of the XPath, as they may
+    # contain characters which can't be returned back to the XPath.
+    yadis_headers = [meta for meta in html.xpath('/html/head/meta[@http-equiv]')
+                     if meta.get('http-equiv').lower() == YADIS_HEADER_NAME.lower()]
     if not yadis_headers:
         raise MetaNotFound('Yadis meta tag not found.')
 
-- 
2.43.0


From 1b92c28329eec8bb79f68560d836dc26660af480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:31 +0000
Subject: [PATCH 61/74] fix: send resolver arguments also for XRI with a
 fragment

The arguments were appended to the fragment, so they were never sent, and the
resolver redirected to a resource of the XRI owner instead of resolving the XRI.
---
 openid/yadis/xrires.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/xrires.py b/openid/yadis/xrires.py
index 0eb04d7..28d9a4f 100644
--- a/openid/yadis/xrires.py
+++ b/openid/yadis/xrires.py
@@ -35,7 +35,8 @@ class ProxyResolver(object):
         # Trim off the xri:// prefix.  The proxy resolver didn't accept it
         # when this code was written, but that may (or may not) change for
         # XRI Resolution 2.0 Working Draft 11.
-        qxri = toURINormal(xri)[6:]
+        # A fragment is not resolved. It has to be removed, otherwise the arguments would be a part of it.
+        qxri = toURINormal(xri)[6:].partition('#')[0]
         hxri = self.proxy_url + qxri
         args = {
             # XXX: If the proxy resolver will ensure that it doesn't return
-- 
2.43.0


From cdf7d218e6bc3c295c5c005bfbb90c8a1c98d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:35 +0000
Subject: [PATCH 62/74] fix: bind services found for an XRI only to CanonicalID
 of their document

Services of all documents were used with CanonicalID of the last one.
---
 openid/yadis/xrires.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/xrires.py b/openid/yadis/xrires.py
index 28d9a4f..f1005ef 100644
--- a/openid/yadis/xrires.py
+++ b/openid/yadis/xrires.py
@@ -91,7 +91,11 @@ class ProxyResolver(object):
                 # print("response not OK:", response)
                 continue
             et = etxrd.parseXRDS(response.body)
-            canonicalID = etxrd.getCanonicalID(xri, et)
+            documentID = etxrd.getCanonicalID(xri, et)
+            if services and (documentID or '').lower() != (canonicalID or '').lower():
+                # Services must not be used with CanonicalID from another document.
+                raise etxrd.XRDSFraud("Documents for %r have CanonicalIDs %r and %r" % (xri, canonicalID, documentID))
+            canonicalID = documentID
             some_services = list(iterServices(et))
             services.extend(some_services)
         # TODO:
-- 
2.43.0


From cdcafa6fe4b291ba5cb88765f8b20dc93fbec9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 63/74] fix: escape all of nested cross-references in XRI

Only the part up to the first closing parenthesis was escaped, the rest of the
cross-reference became a path, a query or a fragment.
---
 openid/yadis/xri.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 32fb6fc..3160038 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -6,8 +6,6 @@
 """
 from __future__ import unicode_literals
 
-import re
-
 from six.moves.urllib.parse import quote
 
 from openid.oidutil import string_to_text
@@ -34,24 +32,25 @@ def toIRINormal(xri):
     return escapeForIRI(xri)
 
 
-_xref_re = re.compile(r'\((.*?)\)')
-
-
-def _escape_xref(xref_match):
-    """Escape things that need to be escaped if they're in a cross-reference.
-    """
-    xref = xref_match.group()
-    xref = xref.replace('/', '%2F')
-    xref = xref.replace('?', '%3F')
-    xref = xref.replace('#', '%23')
-    return xref
+_XREF_ESCAPES = {'/': '%2F', '?': '%3F', '#': '%23'}
 
 
 def escapeForIRI(xri):
     """Escape things that need to be escaped when transforming to an IRI."""
     xri = xri.replace('%', '%25')
-    xri = _xref_re.sub(_escape_xref, xri)
-    return xri
+    chars = []
+    # Depth of cross-references, these may be nested.
+    depth = 0
+    for char in xri:
+        if char == '(':
+            depth += 1
+        elif char == ')':
+            depth = max(depth - 1, 0)
+        elif depth:
+            # Escape things that need to be escaped if they're in a cross-reference.
+            char = _XREF_ESCAPES.get(char, char)
+        chars.append(char)
+    return ''.join(chars)
 
 
 def toURINormal(xri):
-- 
2.43.0


From 4db8fa6966b2175248a04af277ab4d211645decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:52 +0000
Subject: [PATCH 64/74] fix: Urllib2Fetcher does not report refused redirect
 target as final URL

---
 openid/fetchers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 7106925..78d25c5 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -239,6 +239,9 @@ class Urllib2Fetcher(HTTPFetcher):
                 f.close()
         except UrllibHTTPError as why:
             try:
+                if not _allowedURL(why.geturl()):
+                    # Redirection out of HTTP was refused, the error has the URL of its target
+                    raise ValueError('Bad URL scheme: %r' % (why.geturl(),))
                 return self._makeResponse(why)
             finally:
                 why.close()
-- 
2.43.0


From b1b1817dca2618fe90814791017a70927732833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:16 +0000
Subject: [PATCH 65/74] fix: HTTPLib2Fetcher reports URL of the last request
 after a chain of redirects

---
 openid/fetchers.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 78d25c5..eb754ce 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -419,6 +419,18 @@ class HTTPLib2Fetcher(HTTPFetcher):
         # An instance of the httplib2 object that performs HTTP requests
         self.httplib2 = httplib2.Http(cache)
 
+        # httplib2 makes a new request for every redirect it follows. Note
+        # the URL requested in the response.
+        http_request = self.httplib2.request
+
+        def request(uri, *args, **kwargs):
+            response, content = http_request(uri, *args, **kwargs)
+            if getattr(response, 'requested_url', None) is None:
+                response.requested_url = uri
+            return response, content
+
+        self.httplib2.request = request
+
         # We want httplib2 to raise exceptions for errors, just like
         # the other fetchers.
         self.httplib2.force_exception_to_status_code = False
@@ -451,15 +463,10 @@ class HTTPLib2Fetcher(HTTPFetcher):
         # Translate the httplib2 response to our HTTP response abstraction
 
         # The "content-location" can not be used as it may be set by the
-        # server to any URL. Use the target of the last redirect instead.
-        if httplib2_response.previous is not None:
-            final_url = httplib2_response.previous['location']
-        else:
-            final_url = url
-
+        # server to any URL and "previous" is not the last redirect.
         return HTTPResponse(
             body=content,
-            final_url=final_url,
+            final_url=httplib2_response.requested_url,
             headers=dict(httplib2_response.items()),
             status=httplib2_response.status,
         )
-- 
2.43.0


From cfc5105e972643e3bca421a4b36e2c9704ba334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:50 +0000
Subject: [PATCH 66/74] fix: AX attribute aliases may be names of OpenID
 fields, dots in aliases are AX errors

---
 openid/extensions/ax.py | 17 ++++++++++++-----
 openid/message.py       |  5 ++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 0e6e33c..66f4aec 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -39,6 +39,12 @@ def checkAlias(alias):
         raise AXError("Alias %r must not contain period" % (alias,))
 
 
+class AttributeAliases(NamespaceMap):
+    """Maps attribute types and their aliases. OpenID protocol fields are not
+    reserved in attribute exchange messages."""
+    reserved_aliases = frozenset()
+
+
 class AXError(ValueError):
     """Results from data that does not meet the attribute exchange 1.0
     specification"""
@@ -219,7 +225,7 @@ class FetchRequest(AXMessage):
         @returns: The fetch request message parameters
         @rtype: Dict[six.text_type, six.text_type]
         """
-        aliases = NamespaceMap()
+        aliases = AttributeAliases()
 
         required = []
         if_available = []
@@ -345,12 +351,13 @@ class FetchRequest(AXMessage):
         # Raises an exception if the mode is not the expected value
         self._checkMode(ax_args)
 
-        aliases = NamespaceMap()
+        aliases = AttributeAliases()
 
         for key, value in six.iteritems(ax_args):
             if key.startswith('type.'):
                 alias = key[5:]
                 type_uri = value
+                checkAlias(alias)
                 aliases.addAlias(type_uri, alias)
 
                 count_key = 'count.' + alias
@@ -456,7 +463,7 @@ class AXKeyValueMessage(AXMessage):
             care about the aliases for this request.
         """
         if aliases is None:
-            aliases = NamespaceMap()
+            aliases = AttributeAliases()
 
         ax_args = {}
 
@@ -490,7 +497,7 @@ class AXKeyValueMessage(AXMessage):
         """
         self._checkMode(ax_args)
 
-        aliases = NamespaceMap()
+        aliases = AttributeAliases()
 
         for key, value in six.iteritems(ax_args):
             if key.startswith('type.'):
@@ -619,7 +626,7 @@ class FetchResponse(AXKeyValueMessage):
         @rtype: Dict[six.text_type, six.text_type]
         """
 
-        aliases = NamespaceMap()
+        aliases = AttributeAliases()
 
         zero_value_types = []
 
diff --git a/openid/message.py b/openid/message.py
index fd38e87..ddadfab 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -574,7 +574,10 @@ class Message(object):
 
 class NamespaceMap(object):
     """Maintains a bijective map between namespace uris and aliases.
+
+    @cvar reserved_aliases: Names which can not be used as aliases
     """
+    reserved_aliases = OPENID_PROTOCOL_FIELDS
 
     def __init__(self):
         self.alias_to_namespace = {}
@@ -611,7 +614,7 @@ class NamespaceMap(object):
         """
         # Check that desired_alias is not an openid protocol field as
         # per the spec.
-        assert desired_alias not in OPENID_PROTOCOL_FIELDS, "%r is not an allowed namespace alias" % (desired_alias,)
+        assert desired_alias not in self.reserved_aliases, "%r is not an allowed namespace alias" % (desired_alias,)
 
         # Check that desired_alias does not contain a period as per
         # the spec.
-- 
2.43.0


From 95a115f491ea63e4b3eb5313bb3072d4fd6e514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:13 +0000
Subject: [PATCH 67/74] fix: read PAPE auth levels whose alias the message
 defines differently from the default

---
 openid/extensions/pape.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index b2543fa..7a2d83c 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -74,6 +74,12 @@ class PAPEExtension(Extension):
 
         self.auth_level_aliases[alias] = auth_level_uri
 
+    def _dropDefaultAlias(self, alias, auth_level_uri):
+        """Forget the default meaning of an alias which a message defines otherwise."""
+        default_uri = self._default_auth_level_aliases.get(alias)
+        if auth_level_uri != default_uri and self.auth_level_aliases.get(alias) == default_uri:
+            self.auth_level_aliases.pop(alias, None)
+
     def _generateAlias(self):
         """Return an unused auth level alias"""
         for i in range(1000):
@@ -250,6 +256,7 @@ class Request(PAPEExtension):
                         raise ValueError('preferred auth level %r is not '
                                          'defined in this message' % (alias,))
                 else:
+                    self._dropDefaultAlias(alias, uri)
                     self.addAuthLevel(uri, alias)
 
     def preferredTypes(self, supported_types):
@@ -439,6 +446,7 @@ class Response(PAPEExtension):
                         raise ValueError(
                             'Undefined auth level alias: %r' % (alias,))
                 else:
+                    self._dropDefaultAlias(alias, uri)
                     self.setAuthLevel(uri, val, alias)
 
         auth_time = args.get('auth_time')
-- 
2.43.0


From 60579e1eb03ed150bbd94a005794c3e20eec1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:17 +0000
Subject: [PATCH 68/74] fix: requests without return_to don't fail on assertion

---
 openid/consumer/consumer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 1565d31..f59f694 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1593,8 +1593,9 @@ class AuthRequest(object):
         else:
             realm_key = 'realm'
 
-        message.updateArgs(OPENID_NS,
-                           {realm_key: realm, 'mode': mode, 'return_to': return_to})
+        message.updateArgs(OPENID_NS, {realm_key: realm, 'mode': mode})
+        if return_to:
+            message.setArg(OPENID_NS, 'return_to', return_to)
 
         if not self._anonymous:
             if self.endpoint.isOPIdentifier():
-- 
2.43.0


From 21f92f6731f565179f88ce8ceb257ff40d53313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:44 +0000
Subject: [PATCH 69/74] fix: authentication time with a trailing newline or
 other digits isn't in RFC 3339 format

---
 openid/extensions/draft/pape2.py | 2 +-
 openid/extensions/pape.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/extensions/draft/pape2.py b/openid/extensions/draft/pape2.py
index 6e7e456..984d1f2 100644
--- a/openid/extensions/draft/pape2.py
+++ b/openid/extensions/draft/pape2.py
@@ -35,7 +35,7 @@ AUTH_MULTI_FACTOR = \
 AUTH_PHISHING_RESISTANT = \
     'http://schemas.openid.net/pape/policies/2007/06/phishing-resistant'
 
-TIME_VALIDATOR = re.compile(r'^\d\d\d\d-\d\d-\d\dT\d\d:\d\d:\d\dZ$')
+TIME_VALIDATOR = re.compile(r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}Z\Z')
 
 
 class Request(Extension):
diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index 7a2d83c..61a485d 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -36,7 +36,7 @@ AUTH_PHISHING_RESISTANT = \
 AUTH_NONE = \
     'http://schemas.openid.net/pape/policies/2007/06/none'
 
-TIME_VALIDATOR = re.compile(r'^\d\d\d\d-\d\d-\d\dT\d\d:\d\d:\d\dZ$')
+TIME_VALIDATOR = re.compile(r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}Z\Z')
 
 LEVELS_NIST = 'http://csrc.nist.gov/publications/nistpubs/800-63/SP800-63V1_0_2.pdf'
 LEVELS_JISA = 'http://www.jisa.or.jp/spec/auth_level.html'
-- 
2.43.0


From 945edf1bc58e31ef086107fb9755bb2dfbd075e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:23 +0000
Subject: [PATCH 70/74] fix: curl fetcher accepts repeated interim responses
 and their headers

---
 openid/fetchers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index eb754ce..ee6eb50 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -287,9 +287,11 @@ class CurlHTTPFetcher(HTTPFetcher):
 
         # Remove the status line from the beginning of the input
         unused_http_status_line = header_file.readline().lower()
-        if unused_http_status_line.startswith(b'http/1.1 100 '):
-            unused_http_status_line = header_file.readline()
-            unused_http_status_line = header_file.readline()
+        while unused_http_status_line.startswith(b'http/1.1 100 '):
+            # Skip the interim response, there may be more of them and they may have headers
+            while header_file.readline().strip():
+                pass
+            unused_http_status_line = header_file.readline().lower()
 
         lines = [line.strip() for line in header_file]
 
-- 
2.43.0


From 60c42831cd30f6da8d686e0d76470f5ae32a0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:27 +0000
Subject: [PATCH 71/74] fix: root authority of a canonical identifier is
 compared case-insensitively

---
 openid/yadis/etxrd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 877d41c..ae22026 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -189,7 +189,8 @@ def getCanonicalID(iname, xrd_tree):
         childID = parent_sought
 
     try:
-        root = xri.rootAuthority(iname)
+        # Identifiers are compared case-insensitively
+        root = xri.rootAuthority(iname).lower()
     except (IndexError, ValueError):
         raise XRDSError("Root authority of %r not found" % (iname,))
     if not xri.providerIsAuthoritative(root, childID):
-- 
2.43.0


From 0198a04a7c2944357c293505aaf1d723052cb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:05 +0000
Subject: [PATCH 72/74] fix: don't lose an association stored in memory during
 a cleanup

MemoryStore.cleanupAssociations dropped the emptied entry of a server even if another thread
was just storing an association to it.
---
 openid/store/memstore.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 9872023..dcf75d9 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -2,12 +2,17 @@
 from __future__ import unicode_literals
 
 import copy
+import threading
 import time
 
 import six
 
 from openid.store import nonce
 
+# Held while an association is stored or an emptied entry of a server is dropped, so that a cleanup in one thread can't
+# drop the entry another thread is just storing to.
+_assocs_lock = threading.Lock()
+
 
 class ServerAssocs(object):
     def __init__(self):
@@ -70,8 +75,9 @@ class MemoryStore(object):
             return self.server_assocs.setdefault(server_url, ServerAssocs())
 
     def storeAssociation(self, server_url, assoc):
-        assocs = self._getServerAssocs(server_url)
-        assocs.set(copy.deepcopy(assoc))
+        assoc = copy.deepcopy(assoc)
+        with _assocs_lock:
+            self._getServerAssocs(server_url).set(assoc)
 
     def getAssociation(self, server_url, handle=None):
         assocs = self._getServerAssocs(server_url)
@@ -107,17 +113,18 @@ class MemoryStore(object):
         return len(expired)
 
     def cleanupAssociations(self):
-        remove_urls = []
         removed_assocs = 0
-        for server_url, assocs in list(self.server_assocs.items()):
-            removed, remaining = assocs.cleanup()
-            removed_assocs += removed
-            if not remaining:
-                remove_urls.append(server_url)
-
-        # Remove entries from server_assocs that had none remaining.
-        for server_url in remove_urls:
-            self.server_assocs.pop(server_url, None)
+        with _assocs_lock:
+            remove_urls = []
+            for server_url, assocs in list(self.server_assocs.items()):
+                removed, remaining = assocs.cleanup()
+                removed_assocs += removed
+                if not remaining:
+                    remove_urls.append(server_url)
+
+            # Remove entries from server_assocs that had none remaining.
+            for server_url in remove_urls:
+                self.server_assocs.pop(server_url, None)
         return removed_assocs
 
     def __eq__(self, other):
-- 
2.43.0


From ebebcc4bcab8d40a7e4842bcff6a571462cb33f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:40 +0000
Subject: [PATCH 73/74] fix: roll back when the commit of a store's transaction
 fails

A COMMIT which fails (another SQLite connection is reading, for example)
leaves the transaction open: its locks kept everybody else out until the
store was used again.
---
 openid/store/sqlstore.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index f9fc8f1..6d070d6 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -184,11 +184,10 @@ class SQLStore(OpenIDStore):
             finally:
                 self.cur.close()
                 self.cur = None
+            self.conn.commit()
         except Exception:
             self.conn.rollback()
             raise
-        else:
-            self.conn.commit()
 
         return ret
 
-- 
2.43.0


From 7a29e68a4ef23ece2cbb6805f24ba96871c40404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 74/74] fix: PAPE requests and responses changed the lists they
 were made from

Adding a policy to one of them added it to the list of the application, and
so to every other request or response made from it.
---
 openid/extensions/draft/pape2.py | 4 ++--
 openid/extensions/pape.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openid/extensions/draft/pape2.py b/openid/extensions/draft/pape2.py
index 984d1f2..876f9f1 100644
--- a/openid/extensions/draft/pape2.py
+++ b/openid/extensions/draft/pape2.py
@@ -59,7 +59,7 @@ class Request(Extension):
         if not preferred_auth_policies:
             preferred_auth_policies = []
 
-        self.preferred_auth_policies = preferred_auth_policies
+        self.preferred_auth_policies = list(preferred_auth_policies)
         self.max_auth_age = max_auth_age
 
     def __bool__(self):
@@ -171,7 +171,7 @@ class Response(Extension):
                  nist_auth_level=None):
         super(Response, self).__init__()
         if auth_policies:
-            self.auth_policies = auth_policies
+            self.auth_policies = list(auth_policies)
         else:
             self.auth_policies = []
 
diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index 61a485d..eef33a2 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -128,7 +128,7 @@ class Request(PAPEExtension):
         if preferred_auth_policies is None:
             preferred_auth_policies = []
 
-        self.preferred_auth_policies = preferred_auth_policies
+        self.preferred_auth_policies = list(preferred_auth_policies)
         self.max_auth_age = max_auth_age
         self.preferred_auth_level_types = []
 
@@ -295,7 +295,7 @@ class Response(PAPEExtension):
                  auth_levels=None):
         super(Response, self).__init__()
         if auth_policies:
-            self.auth_policies = auth_policies
+            self.auth_policies = list(auth_policies)
         else:
             self.auth_policies = []
 
-- 
2.43.0

