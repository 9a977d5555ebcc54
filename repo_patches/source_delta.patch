From 1abc3553cd8ef94f33fff531441ae2bf3f66195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 01/14] fix: seal and require one final chunk for an empty
 payload

A payload cut off right after its nonce contained no authenticated chunk
at all and was silently decrypted to an empty plaintext.
---
 src/age/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/age/stream.py b/src/age/stream.py
index 9a34a08..c54ccf6 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -14,7 +14,8 @@ def _pack_nonce(nonce: int, last_block: bool = False) -> bytes:
 
 
 def _chunk(data, size):
-    for i in range(0, len(data), size):
+    # even an empty payload consists of one (final) block
+    for i in range(0, max(len(data), 1), size):
         yield data[i : i + size]
 
 
@@ -22,7 +23,7 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE)
+    blocks = max(math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE), 1)
 
     encrypted = b""
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
@@ -38,7 +39,7 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE)
+    blocks = max(math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE), 1)
 
     decrypted = b""
     for nonce, block in enumerate(_chunk(data, CIPHERTEXT_BLOCK_SIZE)):
-- 
2.43.0


From 63247fbe37c3a09dbecdc7860c82a97162b22b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 02/14] fix: keep trying other identities after an SSH key
 fingerprint mismatch

A recipient line for a different SSH key of the same type made decryption
abort although another identity or recipient line matches.
---
 src/age/recipients/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/recipients/helpers.py b/src/age/recipients/helpers.py
index 4814876..7792219 100644
--- a/src/age/recipients/helpers.py
+++ b/src/age/recipients/helpers.py
@@ -31,7 +31,8 @@ def decrypt_file_key(
         for key in _filter_keys_for_recipient(recipient, keys):
             try:
                 return recipient.decrypt(key)
-            except InvalidTag:
+            except (InvalidTag, ValueError):
+                # not a recipient line for this key
                 continue
 
     raise NoIdentity("No matching key")
-- 
2.43.0


From ae2fdfb92aa196a15aca271e9be846c7e19f0b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 03/14] fix: refuse to encrypt if a recipient cannot be
 resolved

A mistyped recipient was silently dropped and the file was encrypted to
the remaining recipients only.
---
 src/age/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 9337a64..6373a46 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -65,7 +65,11 @@ def encrypt(
 
     keys = []
     for recipient in recipients:
-        keys.extend(resolve_public_key(recipient, aliases=aliases))
+        resolved_keys = resolve_public_key(recipient, aliases=aliases)
+        if not resolved_keys:
+            print(f"Could not resolve recipient: {recipient}", file=sys.stderr)
+            sys.exit(1)
+        keys.extend(resolved_keys)
 
     if ask_password:
         if recipients:
-- 
2.43.0


From 0ce4059f89058ca2acb26517873a7449e13faf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 04/14] fix: do not follow github: links inside of recipient
 files and URLs

Lines of files and downloaded key lists are resolved with read_urls=False,
but github: links were fetched regardless.
---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 64ce240..8e0cfe3 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -120,7 +120,7 @@ def resolve_public_key(
         return resolved_from_alias
 
     # resolve "github:" links
-    if keystr.startswith("github:"):
+    if read_urls and keystr.startswith("github:"):
         _, _, username = keystr.partition(":")
         github_url = f"https://github.com/{username}.keys"
         return resolve_public_key(github_url)
-- 
2.43.0


From 0c2bc77e548cc887707f71af8321cdb2065cea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 05/14] fix: skip unusable files when collecting SSH identities

A single passphrase-protected, unsupported, damaged or unrelated file
named ~/.ssh/id_* made every decryption fail.
---
 src/age/keyloader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 8e0cfe3..99f082a 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -2,6 +2,7 @@ import collections
 import glob
 import os.path
 import re
+import sys
 import typing
 
 import requests
@@ -70,7 +71,11 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
     keys = []
 
     for filename in glob.glob(os.path.join(root, "id_*")):
-        key = load_ssh_private_key(filename)
+        try:
+            key = load_ssh_private_key(filename)
+        except Exception as exc:
+            print(f"Ignoring SSH key {filename} ({type(exc).__name__})", file=sys.stderr)
+            continue
         if key:
             keys.append(key)
 
-- 
2.43.0


From 149ad79970a4867a68ce3778ad15967ef954b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 06/14] fix: finish ASCII armored output before reporting
 success

The armor was only written when the garbage collector closed the stream;
errors while writing it were lost.
---
 src/age/cli.py              | 3 +++
 src/age/utils/asciiarmor.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/age/cli.py b/src/age/cli.py
index 6373a46..dac6fdf 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -93,6 +93,9 @@ def encrypt(
     with Encryptor(keys, outfile) as encryptor:
         encryptor.write(infile.read())
 
+    if ascii_armored:
+        outfile.close()
+
 
 def decrypt(
     infile: typing.Optional[typing.BinaryIO] = None,
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 238cd07..286fe88 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -113,6 +113,7 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 
     def _encode_buffer(self):
         write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)
+        self._text_stream.flush()
         self._plaintext_buffer = b""
 
 
-- 
2.43.0


From 18d90182d0f797b6e8c6222c3db30e960262d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 07/14] fix: refuse to write to closed streams

Data written after close() was accepted and silently lost.
---
 src/age/file.py             | 2 ++
 src/age/utils/asciiarmor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/age/file.py b/src/age/file.py
index 1740986..cfc282f 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -30,6 +30,8 @@ class Encryptor(io.RawIOBase):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed stream")
         self._plaintext_buffer += data
         return len(data)
 
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 286fe88..55ff0c6 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -91,6 +91,8 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed stream")
         self._plaintext_buffer += data
         return len(data)
 
-- 
2.43.0


From 65b345a95108cab698f65c23c3fa9ef4f291d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 08/14] fix: reject truncated fields and broken padding in
 OpenSSH keys

Strings shorter than their length field were accepted, empty integers
crashed with IndexError and only the first seven padding bytes were checked.
---
 src/age/openssh_keys.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index b382024..281b60a 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -38,7 +38,10 @@ def _read_struct(stream: typing.BinaryIO, fmt: str) -> tuple:
 
 def _sshbuf_get_cstring(stream: typing.BinaryIO) -> bytes:
     (length,) = _read_struct(stream, ">I")  # read data in the format: 32-bit length, data[length]
-    return stream.read(length)
+    data = stream.read(length)
+    if len(data) != length:
+        raise InvalidKeyFile("Truncated string")
+    return data
 
 
 def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
@@ -46,7 +49,7 @@ def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
 
     # check
     # https://github.com/openssh/openssh-portable/blob/5a273a33ca1410351cb484af7db7c13e8b4e8e4e/sshbuf-getput-basic.c#L604
-    if data[0] & 0x80:
+    if data[:1] >= b"\x80":
         raise ValueError("Negative bignums are not supported")
 
     return int.from_bytes(data, byteorder="big")
@@ -260,13 +263,8 @@ def load_openssh_private_key(
     # discard key comment
     _sshbuf_get_cstring(decrypted_stream)
 
-    # check deterministic padding: \x01\x02\x03\x04.. up til max. \x07
-    for i in range(1, 8):
-        try:
-            (pad,) = _read_struct(decrypted_stream, "B")
-        except struct.error:
-            # EOF
-            break
+    # check deterministic padding: \x01\x02\x03\x04..
+    for i, pad in enumerate(decrypted_stream.read(), start=1):
         if pad != i:
             raise InvalidKeyFile("Broken file padding")
 
-- 
2.43.0


From 1a3da08a22d02092d390b2d297f7ac592d47dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 09/14] fix: do not reveal the password in str(PasswordKey)

---
 src/age/keys/password.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keys/password.py b/src/age/keys/password.py
index 39d7ac7..6081256 100644
--- a/src/age/keys/password.py
+++ b/src/age/keys/password.py
@@ -6,7 +6,7 @@ class PasswordKey(EncryptionKey, DecryptionKey):
         self.value = value
 
     def __str__(self):
-        return str(self.value)
+        return repr(self)
 
     def __repr__(self):
         return f"<{self.__class__.__name__}>"
-- 
2.43.0


From bce9af67a109a6c4187ca6f2139cca373ee76098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 10/14] fix: hash HMAC keys only if they are longer than a
 block

---
 src/age/primitives/hmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/primitives/hmac.py b/src/age/primitives/hmac.py
index 018f6e8..e3ab5df 100644
--- a/src/age/primitives/hmac.py
+++ b/src/age/primitives/hmac.py
@@ -7,7 +7,7 @@ __all__ = ["HMAC"]
 
 
 def _reduce_key(key: bytes) -> bytes:
-    if len(key) > 32:
+    if len(key) > 64:  # block size of SHA-256
         digest = hashes.Hash(hashes.SHA256(), backend=default_backend())
         digest.update(key)
         key = digest.finalize()
-- 
2.43.0


From 1acf104db22a6f75e8ebfa42738370959c2cf32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 11/14] fix: do not close the underlying stream when armored
 output is dropped

---
 src/age/utils/asciiarmor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 55ff0c6..a2a87aa 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -115,7 +115,7 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 
     def _encode_buffer(self):
         write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)
-        self._text_stream.flush()
+        self._text_stream.detach()  # otherwise it closes the underlying stream
         self._plaintext_buffer = b""
 
 
-- 
2.43.0


From 3073b33048563decf6b6b492a86794f30a621a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 12/14] fix: report a low-order X25519 share as a value error

libsodium refuses such points with a RuntimeError of its own, which ended the
search for a stanza that can be opened
---
 src/age/primitives/x25519.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/age/primitives/x25519.py b/src/age/primitives/x25519.py
index 7a4be3d..c593ad3 100644
--- a/src/age/primitives/x25519.py
+++ b/src/age/primitives/x25519.py
@@ -23,8 +23,13 @@ def x25519_scalarmult(secret_scalar: ECScalar, point: ECPoint) -> ECPoint:
     :returns: New point on curve: :math:`nP = P + P + P + P + P + \\text{...}` (`n` times)
     """
 
-    k = crypto_scalarmult(secret_scalar, point)
-    assert any(k), "All-zeros-check failed (see RFC 7748, section 6.1)"
+    try:
+        k = crypto_scalarmult(secret_scalar, point)
+    except RuntimeError:
+        # libsodium refuses points of low order itself
+        k = bytes(32)
+    if not any(k):
+        raise ValueError("All-zeros-check failed (see RFC 7748, section 6.1)")
     return ECPoint(k)
 
 
-- 
2.43.0


From 21da153b63ac235efb9815ae958634d12bec67ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 13/14] fix: refuse X25519 scalars and points that do not have
 32 bytes

nacl.bindings.crypto_scalarmult passes them to libsodium unchecked, which reads
32 bytes whatever their length
---
 src/age/primitives/x25519.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/age/primitives/x25519.py b/src/age/primitives/x25519.py
index c593ad3..fbf7575 100644
--- a/src/age/primitives/x25519.py
+++ b/src/age/primitives/x25519.py
@@ -23,6 +23,9 @@ def x25519_scalarmult(secret_scalar: ECScalar, point: ECPoint) -> ECPoint:
     :returns: New point on curve: :math:`nP = P + P + P + P + P + \\text{...}` (`n` times)
     """
 
+    if len(secret_scalar) != 32 or len(point) != 32:
+        raise ValueError("Curve25519 scalars and points have 32 bytes")
+
     try:
         k = crypto_scalarmult(secret_scalar, point)
     except RuntimeError:
-- 
2.43.0


From 85bd607ad45e85279e89434ef942e1d66dc984dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 14/14] fix: prompt for the passphrase on standard error

---
 src/age/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index dac6fdf..6f03ef6 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -79,7 +79,7 @@ def encrypt(
                 + "the message content and recipient list.",
                 file=sys.stderr,
             )
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
@@ -134,7 +134,7 @@ def decrypt(
         keys.extend(load_keys_txt(keyfile))
 
     if ask_password:
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
-- 
2.43.0

