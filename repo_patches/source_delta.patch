From 4e90ef86784f27f39616f4c9138b3980a76b7e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 01/21] fix: wipe the stack after key derivation

Deriving data from the primary password leaves copies of it on the stack.
Whether these are overwritten by later calls depends on compiler decisions,
so overwrite the affected stack area explicitly.
---
 pfp/src/crypto.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index b28e5eb..281c819 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -33,7 +33,26 @@ const CHARS_MAPPING: [(CharacterType, &[u8]); 4] = [
 // ambiguous characters: 0, 1, O, I.
 pub const BASE32_ALPHABET: &[u8] = b"ABCDEFGHJKLMNPQRSTUVWXYZ23456789";
 
+// Size of the stack area to be cleared after deriving data from the primary password.
+const STACK_WIPE_SIZE: usize = 16 * 1024;
+
 pub fn derive_bits(password: &SecretString, salt: &[u8], size: usize) -> SecretVec<u8> {
+    let result = derive_bits_raw(password, salt, size);
+
+    // The scrypt implementation leaves copies of the primary password behind on the stack.
+    wipe_stack();
+
+    result
+}
+
+/// Overwrites the stack area that was used by functions called previously from the same function.
+#[inline(never)]
+fn wipe_stack() {
+    std::hint::black_box(&mut [0u8; STACK_WIPE_SIZE]);
+}
+
+#[inline(never)]
+fn derive_bits_raw(password: &SecretString, salt: &[u8], size: usize) -> SecretVec<u8> {
     let params = scrypt::Params::new(15, 8, 1).unwrap();
     let mut bytes: Vec<u8> = Vec::new();
     bytes.resize(size, 0);
-- 
2.43.0


From 4abe3b16ce0f73c14bc2afbe0c80c81248a0a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 02/21] fix: list no longer fails when an alias target has no
 site entry

---
 cli/src/processor/list.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 3432f46..045219d 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -30,6 +30,10 @@ pub fn processor<IO: storage_io::StorageIO>(
         let mut empty_sites = Vec::new();
 
         let mut sites = passwords.list_sites(domain).collect::<Vec<Site>>();
+        let known_sites = sites
+            .iter()
+            .map(|site| site.name().to_owned())
+            .collect::<std::collections::HashSet<String>>();
         let mut additions = Vec::new();
         for site in sites.iter() {
             if let Some(alias) = site.alias() {
@@ -59,7 +63,8 @@ pub fn processor<IO: storage_io::StorageIO>(
         for site in sites {
             let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
             if list.is_empty() {
-                if name == "*" {
+                // Alias targets don't necessarily have a site entry of their own.
+                if name == "*" && known_sites.contains(site.name()) {
                     empty_sites.push(site.name().to_string());
                 }
                 continue;
-- 
2.43.0


From 39d77c61daa8acb91b7beb4d3f64129e44bdc822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 03/21] fix: don't create alias chains when an aliased site
 becomes an alias

Aliases are resolved one level deep, so passwords added via the first alias
in a chain ended up being associated with a site which is itself an alias.
These passwords couldn't be listed or found under any other site name.
---
 pfp/src/passwords.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index dd5bc60..16f48e6 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -161,8 +161,9 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
     /// Marks `site` and an alias for `alias`.
     ///
     /// This will normalize `site` parameter (remove `www.` prefix). If `alias` is itself marked as
-    /// an alias for another site, `site` will become an alias for that site. Attempting to mark a
-    /// site as an alias which already has passwords will result in
+    /// an alias for another site, `site` will become an alias for that site. Likewise, sites that
+    /// are currently aliases for `site` will become aliases for its new target. Attempting to mark
+    /// a site as an alias which already has passwords will result in
     /// [Error::SiteHasPasswords](../error/enum.Error.html#variant.SiteHasPasswords).
     pub fn set_alias(&mut self, site: &str, alias: &str) -> Result<(), Error> {
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
@@ -181,6 +182,22 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
+
+        // Aliases are never resolved recursively, so any existing aliases for this site have to
+        // point to the new target now.
+        let outdated = self
+            .storage
+            .list_sites(key)
+            .filter(|other| {
+                other.alias() == Some(site_normalized.as_str()) && other.name() != alias_resolved
+            })
+            .map(|other| other.name().to_owned())
+            .collect::<Vec<String>>();
+        for other in outdated {
+            self.storage
+                .set_alias(&other, &alias_resolved, hmac_secret, key)?;
+        }
+
         self.storage.flush()
     }
 
-- 
2.43.0


From 2845006f4bb5e44b45693b38ee36896d4e57a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 04/21] fix: return an error for ciphertexts with wrong nonce
 size instead of panicking

---
 pfp/src/crypto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index 281c819..a24db0e 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -146,6 +146,9 @@ pub fn decrypt_data(value: &str, encryption_key: &SecretVec<u8>) -> Result<Secre
         value.split_once('_').ok_or(Error::InvalidCiphertext)?;
     let nonce_data =
         base64::decode(nonce_base64).map_err(|error| Error::InvalidBase64 { error })?;
+    if nonce_data.len() != AES_NONCE_SIZE / 8 {
+        return Err(Error::InvalidCiphertext);
+    }
     let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     let ciphertext =
         base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;
-- 
2.43.0


From d19fee82497986865a360d6bff06a6567508f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 05/21] fix: avoid integer underflow when decoding the recovery
 code for an empty password

---
 pfp/src/recovery_codes.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index a518462..0964783 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -219,13 +219,11 @@ pub fn decode(code: &str, primary_password: &SecretString) -> Result<SecretStrin
     let encryption_key = passwords::get_encryption_key(primary_password, salt);
     let decrypted = crypto::decrypt_data(&encrypted, &encryption_key)?;
     let decrypted_len = decrypted.expose_secret().len();
-    let mut end_pos = decrypted_len;
-    while let Some(&byte) = decrypted.expose_secret().get(end_pos - 1) {
-        if byte != 0 {
-            break;
-        }
-        end_pos -= 1;
-    }
+    let end_pos = decrypted
+        .expose_secret()
+        .iter()
+        .rposition(|&byte| byte != 0)
+        .map_or(0, |pos| pos + 1);
     let stripped = if end_pos == decrypted_len {
         decrypted
     } else {
-- 
2.43.0


From dda8c711907f03e40d40377e671bc4772a6cb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 06/21] fix: avoid integer underflow in recovery codes with
 more than 256 lines

---
 pfp/src/recovery_codes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index 0964783..9f07cce 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -103,7 +103,7 @@ pub fn generate(
             let block_index = pos / BLOCK_SIZE;
             let final_block = block_index == blocks - 1;
             let virtual_byte = if final_block {
-                255 - block_index
+                255_usize.wrapping_sub(block_index)
             } else {
                 block_index
             } as u8;
@@ -249,7 +249,9 @@ fn validate(code: &str) -> Result<Vec<u8>, Error> {
             break;
         }
 
-        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], (255 - i) as u8) {
+        if chunk[BLOCK_SIZE]
+            == crypto::pearson_hash(&chunk[..BLOCK_SIZE], 255_usize.wrapping_sub(i) as u8)
+        {
             seen_last = true;
             extra_row = None;
         } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {
-- 
2.43.0


From 2a425f167dce2d27fcf51b116e78f3563b2a76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 07/21] fix: keep keys in sync with storage data if saving
 fails during reset

If saving the data failed, the in-memory storage contained the new salt and
HMAC secret while the old keys were still being used. Saving later changes
successfully would then produce a file with inaccessible data.
---
 pfp/src/passwords.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 16f48e6..519a0f8 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -109,12 +109,13 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         let hmac_secret = SecretVec::new(crypto::get_rng().gen::<[u8; 32]>().to_vec());
 
         self.storage.clear(&salt, &hmac_secret, &key)?;
-        self.storage.flush()?;
 
+        // The data in storage can only be accessed with the new keys from here on, even if saving
+        // it to disk fails.
         self.key = Some(key);
         self.hmac_secret = Some(hmac_secret);
         self.primary_password = Some(primary_password);
-        Ok(())
+        self.storage.flush()
     }
 
     /// Unlocks the passwords storage with a given primary password.
-- 
2.43.0


From 4ec141b3bcd3a1aa655dbf72bcadc758d2769251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 08/21] fix: set-primary asks for confirmation before replacing
 files it cannot read

An existing storage file that couldn't be loaded (corrupt or written by a newer
version) was replaced without asking.
---
 cli/src/main.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 7177bf9..5a61943 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -72,23 +72,19 @@ fn main_inner(args: Args) -> Result<(), String> {
     };
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
-        match FileIO::load(&storage_path) {
-            Ok(io) => {
-                if !assume_yes {
-                    let allow = question::Question::new(
-                        "Changing primary password will remove all existing data. Continue?",
-                    )
-                    .default(question::Answer::NO)
-                    .show_defaults()
-                    .confirm();
-                    if allow == question::Answer::NO {
-                        return Ok(());
-                    }
-                }
-                io
+        // Ask for confirmation even if the existing file cannot be loaded, it might be recoverable.
+        if !assume_yes && storage_path.exists() {
+            let allow = question::Question::new(
+                "Changing primary password will remove all existing data. Continue?",
+            )
+            .default(question::Answer::NO)
+            .show_defaults()
+            .confirm();
+            if allow == question::Answer::NO {
+                return Ok(());
             }
-            Err(_) => FileIO::new(&storage_path),
         }
+        FileIO::load(&storage_path).unwrap_or_else(|_| FileIO::new(&storage_path))
     } else {
         FileIO::load(&storage_path).convert_error()?
     };
-- 
2.43.0


From 68ebb964a67e2002dd1c4ce2018f4665fa603020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 09/21] fix: don't lose the storage file if saving it fails or
 is interrupted

The storage file was truncated before writing the new data, so running out of
disk space or being killed at this point resulted in losing all passwords.
Write to a temporary file and rename it instead.
---
 pfp/src/storage_io/file.rs | 50 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 597c734..9aa8ffe 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -8,6 +8,7 @@ use crate::error::Error;
 use crate::json::{const_serializable, Deserialize, Serialize};
 use std::collections::HashMap;
 use std::fs;
+use std::io::Write;
 use std::path;
 
 const_serializable!(ApplicationName: String = "pfp");
@@ -82,6 +83,53 @@ impl super::StorageIO for FileIO {
         if let Some(parent) = parent {
             fs::create_dir_all(parent).map_err(|error| Error::CreateDirFailure { error })?;
         }
-        fs::write(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
+        write_atomic(&self.path, contents.as_bytes())
+            .map_err(|error| Error::FileWriteFailure { error })
     }
 }
+
+/// Replaces the contents of a file without leaving it in an incomplete state if writing fails or
+/// the application is interrupted.
+fn write_atomic(path: &path::Path, contents: &[u8]) -> std::io::Result<()> {
+    // Replace the actual file rather than a symbolic link pointing to it
+    let target = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    if fs::symlink_metadata(&target).map_or(false, |metadata| !metadata.is_file()) {
+        // Devices, dangling symbolic links and the like cannot be replaced, write directly
+        return fs::write(&target, contents);
+    }
+
+    let mut temp_name = target
+        .file_name()
+        .map(|name| name.to_os_string())
+        .unwrap_or_default();
+    temp_name.push(format!(".{}.tmp", std::process::id()));
+    let temp_path = target.with_file_name(temp_name);
+
+    // Remove potential leftovers of a process that was interrupted
+    let _ = fs::remove_file(&temp_path);
+    let mut file = match fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&temp_path)
+    {
+        Ok(file) => file,
+        Err(error) if error.kind() == std::io::ErrorKind::PermissionDenied => {
+            // No write access to the directory but the file itself might still be writable
+            return fs::write(&target, contents);
+        }
+        Err(error) => return Err(error),
+    };
+
+    let result = (|| {
+        if let Ok(metadata) = fs::metadata(&target) {
+            file.set_permissions(metadata.permissions())?;
+        }
+        file.write_all(contents)?;
+        file.sync_all()?;
+        fs::rename(&temp_path, &target)
+    })();
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    result
+}
-- 
2.43.0


From 6d94935afeff569391f75a8473c323f05fa2866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 10/21] fix: don't leave partial copies of secrets behind when
 serializing entries

Growing the serialization buffer left copies of its contents behind in freed
memory, these weren't cleared.
---
 pfp/src/json/mod.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pfp/src/json/mod.rs b/pfp/src/json/mod.rs
index f95c477..0a1b959 100644
--- a/pfp/src/json/mod.rs
+++ b/pfp/src/json/mod.rs
@@ -7,7 +7,7 @@
 pub use serde::de::Deserialize as Deserializable;
 pub use serde::ser::Serialize as Serializable;
 pub use serde::*;
-pub use serde_json::{from_slice, from_str, json, to_string, to_vec, Error, Value};
+pub use serde_json::{from_slice, from_str, json, to_string, Error, Value};
 
 mod macros;
 
@@ -16,3 +16,30 @@ mod macros;
 pub use macros::*;
 
 pub mod secret_serialization;
+
+struct SizeCounter(usize);
+
+impl std::io::Write for SizeCounter {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0 += buf.len();
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        Ok(())
+    }
+}
+
+/// Serializes a value without ever growing the buffer, this would leave copies of potentially
+/// secret data behind in memory.
+pub fn to_vec<T>(value: &T) -> Result<Vec<u8>, Error>
+where
+    T: ?Sized + Serializable,
+{
+    let mut counter = SizeCounter(0);
+    serde_json::to_writer(&mut counter, value)?;
+
+    let mut result = Vec::with_capacity(counter.0);
+    serde_json::to_writer(&mut result, value)?;
+    Ok(result)
+}
-- 
2.43.0


From d120b917672388934a1023c12a45b17b58fd78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 11/21] fix: don't leave copies of long secrets behind when
 reading input

---
 cli/src/processor/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index e8bb9ba..c950730 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -9,7 +9,7 @@ use pfp::error::Error;
 use pfp::passwords::Passwords;
 use pfp::recovery_codes;
 use pfp::storage_io;
-use secrecy::{ExposeSecret, SecretString, SecretVec};
+use secrecy::{zeroize::Zeroize, ExposeSecret, SecretString, SecretVec};
 use std::io::{Read, Write};
 
 fn format_error(error: &Error) -> String {
@@ -81,6 +81,13 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
         if byte_buffer[0] == b'\n' {
             break;
         }
+        if buffer.len() == buffer.capacity() {
+            // Don't let the buffer grow implicitly, this wouldn't clear the old memory area.
+            let mut larger = Vec::with_capacity(buffer.capacity() * 2);
+            larger.extend_from_slice(&buffer);
+            buffer.zeroize();
+            buffer = larger;
+        }
         buffer.push(byte_buffer[0]);
     }
 
-- 
2.43.0


From 32ad0f64e295de0178763a5c4d8b457b40227995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 12/21] fix: read generated passwords also if their member
 names are stored with escape sequences

---
 pfp/src/json/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfp/src/json/macros.rs b/pfp/src/json/macros.rs
index 5629c21..433c212 100644
--- a/pfp/src/json/macros.rs
+++ b/pfp/src/json/macros.rs
@@ -72,7 +72,7 @@ macro_rules! enumset_serialization {
                     let mut result = Self::Value::empty();
 
                     loop {
-                        match map.next_key::<&str>()? {
+                        match map.next_key::<String>()?.as_deref() {
                             None => break,
                             $(
                                 Some($key) => {
-- 
2.43.0


From 1eca6b2c3020351cbffaaf362a1e84900100caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 13/21] fix: start the QR code on a line of its own

The first row of the code followed "Password retrieved." on the same line,
so it was displaced and the code could not be scanned.
---
 cli/src/processor/show.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/processor/show.rs b/cli/src/processor/show.rs
index 1670500..91979f2 100644
--- a/cli/src/processor/show.rs
+++ b/cli/src/processor/show.rs
@@ -27,7 +27,7 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let password = passwords.get(domain, name, revision).convert_error()?;
         let mut stdout = StreamWriter::stdout().unwrap();
-        stdout.write_all(b"Password retrieved.").unwrap();
+        stdout.write_all(b"Password retrieved.\n").unwrap();
         if *qrcode {
             const BLOCKS: [&str; 4] = [" ", "\u{2580}", "\u{2584}", "\u{2588}"];
 
-- 
2.43.0


From 71a24cfa9397cf837a015acca372f0a25b9a833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 14/21] fix: list orders passwords by name, then by revision

With the combined sort key, "a b" was listed between the revisions "1" and
"z" of "a".
---
 cli/src/processor/list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 045219d..7fb8938 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -79,7 +79,10 @@ pub fn processor<IO: storage_io::StorageIO>(
             }
 
             list.sort_by_key(|password| {
-                password.id().name().to_string() + " " + password.id().revision()
+                (
+                    password.id().name().to_string(),
+                    password.id().revision().to_string(),
+                )
             });
             for password in list {
                 let name = password.id().name().to_owned();
-- 
2.43.0


From ed44eacdbe3d6f1d64b8ac196db50472d1ee1bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 15/21] fix: make sure that saved changes survive a power loss

---
 pfp/src/storage_io/file.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 9aa8ffe..bbed615 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -126,7 +126,18 @@ fn write_atomic(path: &path::Path, contents: &[u8]) -> std::io::Result<()> {
         }
         file.write_all(contents)?;
         file.sync_all()?;
-        fs::rename(&temp_path, &target)
+        fs::rename(&temp_path, &target)?;
+
+        // Make sure that the new directory entry survives a power loss. Directories cannot be
+        // opened on all platforms, so this is best effort.
+        let dir = match target.parent() {
+            Some(parent) if parent != path::Path::new("") => parent,
+            _ => path::Path::new("."),
+        };
+        if let Ok(dir) = fs::File::open(dir) {
+            let _ = dir.sync_all();
+        }
+        Ok(())
     })();
     if result.is_err() {
         let _ = fs::remove_file(&temp_path);
-- 
2.43.0


From ff30c88292834a9c2bb9534ef4d9997366012836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 16/21] fix: Report input that cannot be read instead of
 crashing or prompting forever

Input that isn't valid UTF-8 (at any prompt for secrets or notes) and Ctrl-D at a password
prompt crashed the application, inside the shell this ended the session. Reaching the end of
input made the primary password prompt repeat forever, it stored an empty password or removed
notes at the other prompts.
---
 cli/src/processor/add_stored.rs  |  2 +-
 cli/src/processor/notes.rs       |  2 +-
 cli/src/processor/set_primary.rs |  4 ++--
 cli/src/processor/utils.rs       | 35 +++++++++++++++++++-------------
 4 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/cli/src/processor/add_stored.rs b/cli/src/processor/add_stored.rs
index ed94cc7..1d4bf12 100644
--- a/cli/src/processor/add_stored.rs
+++ b/cli/src/processor/add_stored.rs
@@ -40,7 +40,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         let password = if *recovery {
             prompt_recovery_code(passwords)?
         } else {
-            prompt_password("Password to be stored: ", args.stdin_passwords)
+            prompt_password("Password to be stored: ", args.stdin_passwords)?
         };
         passwords
             .set_stored(domain, name, revision, password)
diff --git a/cli/src/processor/notes.rs b/cli/src/processor/notes.rs
index 82d6b62..55489fb 100644
--- a/cli/src/processor/notes.rs
+++ b/cli/src/processor/notes.rs
@@ -38,7 +38,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
 
         if *set {
-            let notes = prompt_secret_text("Please enter new notes to be stored:");
+            let notes = prompt_secret_text("Please enter new notes to be stored:")?;
             let removing = notes.expose_secret().is_empty();
             passwords
                 .set_notes(domain, name, revision, notes)
diff --git a/cli/src/processor/set_primary.rs b/cli/src/processor/set_primary.rs
index db84443..f715b2c 100644
--- a/cli/src/processor/set_primary.rs
+++ b/cli/src/processor/set_primary.rs
@@ -15,12 +15,12 @@ pub fn processor<IO: storage_io::StorageIO>(
     storage_path: &std::path::Path,
     passwords: &mut Passwords<IO>,
 ) -> Result<(), String> {
-    let primary_password = prompt_password("New primary password: ", args.stdin_passwords);
+    let primary_password = prompt_password("New primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret().len() < 6 {
         return Err("Primary password length should be at least 6 characters.".to_owned());
     }
 
-    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords);
+    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret() != primary_password2.expose_secret() {
         return Err("Primary passwords don't match.".to_owned());
     }
diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index c950730..4acd57e 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -68,7 +68,11 @@ impl<T> ConvertError<T> for Result<T, Error> {
     }
 }
 
-pub fn prompt_secret_text(prompt: &str) -> SecretString {
+fn format_input_error(error: impl std::fmt::Display) -> String {
+    format!("Failed reading input ({}).", error)
+}
+
+pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
     StreamWriter::stdout()
         .unwrap()
         .write_all(prompt.as_bytes())
@@ -77,9 +81,14 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
     let mut byte_buffer = [0];
     let mut buffer = Vec::with_capacity(1024);
     let mut stdin = StreamReader::stdin().unwrap();
-    while let Ok(1) = stdin.read(&mut byte_buffer) {
-        if byte_buffer[0] == b'\n' {
-            break;
+    loop {
+        match stdin.read(&mut byte_buffer) {
+            Ok(0) if buffer.is_empty() => return Err(format_input_error("unexpected end of file")),
+            Ok(0) => break,
+            Ok(_) if byte_buffer[0] == b'\n' => break,
+            Ok(_) => {}
+            Err(error) if error.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(error) => return Err(format_input_error(error)),
         }
         if buffer.len() == buffer.capacity() {
             // Don't let the buffer grow implicitly, this wouldn't clear the old memory area.
@@ -92,20 +101,18 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
     }
 
     let input = SecretVec::new(buffer);
-    SecretString::new(
-        std::str::from_utf8(input.expose_secret().as_slice())
-            .unwrap()
-            .to_owned(),
-    )
+    std::str::from_utf8(input.expose_secret().as_slice())
+        .map(|text| SecretString::new(text.to_owned()))
+        .map_err(format_input_error)
 }
 
-pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> SecretString {
+pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> Result<SecretString, String> {
     let secret = if stdin_passwords {
-        prompt_secret_text(prompt)
+        prompt_secret_text(prompt)?
     } else {
-        SecretString::new(rpassword::prompt_password(prompt).unwrap())
+        SecretString::new(rpassword::prompt_password(prompt).map_err(format_input_error)?)
     };
-    SecretString::new(secret.expose_secret().trim().to_owned())
+    Ok(SecretString::new(secret.expose_secret().trim().to_owned()))
 }
 
 pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
@@ -117,7 +124,7 @@ pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
     }
 
     while !passwords.unlocked() {
-        let primary_password = prompt_password("Your primary password: ", stdin_passwords);
+        let primary_password = prompt_password("Your primary password: ", stdin_passwords)?;
         if primary_password.expose_secret().len() < 6 {
             eprintln!("Primary password length should be at least 6 characters.");
         } else {
-- 
2.43.0


From 4278674dc822d23f23c301cc2196bec4c96fb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 17/21] fix: Unique temporary file names

Two instances saving the same file at the same time from one process used the same temporary
file, the result could be a failure or an incomplete storage file. The name is also independent
of the storage file now, so that it doesn't exceed the allowed length.
---
 pfp/src/storage_io/file.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index bbed615..01c3153 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -10,6 +10,7 @@ use std::collections::HashMap;
 use std::fs;
 use std::io::Write;
 use std::path;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 const_serializable!(ApplicationName: String = "pfp");
 const_serializable!(Format: u8 = 3);
@@ -88,6 +89,9 @@ impl super::StorageIO for FileIO {
     }
 }
 
+/// Number of temporary files created so far, for unique file names
+static TEMP_FILES: AtomicUsize = AtomicUsize::new(0);
+
 /// Replaces the contents of a file without leaving it in an incomplete state if writing fails or
 /// the application is interrupted.
 fn write_atomic(path: &path::Path, contents: &[u8]) -> std::io::Result<()> {
@@ -98,12 +102,11 @@ fn write_atomic(path: &path::Path, contents: &[u8]) -> std::io::Result<()> {
         return fs::write(&target, contents);
     }
 
-    let mut temp_name = target
-        .file_name()
-        .map(|name| name.to_os_string())
-        .unwrap_or_default();
-    temp_name.push(format!(".{}.tmp", std::process::id()));
-    let temp_path = target.with_file_name(temp_name);
+    let temp_path = target.with_file_name(format!(
+        ".pfp-{}-{}.tmp",
+        std::process::id(),
+        TEMP_FILES.fetch_add(1, Ordering::Relaxed)
+    ));
 
     // Remove potential leftovers of a process that was interrupted
     let _ = fs::remove_file(&temp_path);
-- 
2.43.0


From 433def6640b0939329a51007d13df0cc7a6722db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 18/21] fix: Saving keeps the owner of the file, doesn't
 replace read-only files

Replacing the file by a new one made it belong to the user saving it, and it
worked even if writing to the file wasn't permitted.
---
 pfp/src/storage_io/file.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 01c3153..cb592f3 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -102,6 +102,13 @@ fn write_atomic(path: &path::Path, contents: &[u8]) -> std::io::Result<()> {
         return fs::write(&target, contents);
     }
 
+    // Replacing a file doesn't require write access to it, don't change read-only files regardless
+    let existing = match fs::OpenOptions::new().write(true).open(&target) {
+        Ok(file) => Some(file.metadata()?),
+        Err(error) if error.kind() == std::io::ErrorKind::NotFound => None,
+        Err(error) => return Err(error),
+    };
+
     let temp_path = target.with_file_name(format!(
         ".pfp-{}-{}.tmp",
         std::process::id(),
@@ -124,7 +131,8 @@ fn write_atomic(path: &path::Path, contents: &[u8]) -> std::io::Result<()> {
     };
 
     let result = (|| {
-        if let Ok(metadata) = fs::metadata(&target) {
+        if let Some(metadata) = existing {
+            keep_owner(&file, &metadata);
             file.set_permissions(metadata.permissions())?;
         }
         file.write_all(contents)?;
@@ -147,3 +155,17 @@ fn write_atomic(path: &path::Path, contents: &[u8]) -> std::io::Result<()> {
     }
     result
 }
+
+/// Makes the file belong to the same user and group as the one it will replace, if possible.
+#[cfg(unix)]
+fn keep_owner(file: &fs::File, metadata: &fs::Metadata) {
+    use std::os::unix::fs::{fchown, MetadataExt};
+
+    if fchown(file, Some(metadata.uid()), Some(metadata.gid())).is_err() {
+        // Changing the user requires privileges, changing the group usually doesn't
+        let _ = fchown(file, None, Some(metadata.gid()));
+    }
+}
+
+#[cfg(not(unix))]
+fn keep_owner(_file: &fs::File, _metadata: &fs::Metadata) {}
-- 
2.43.0


From a51a3d51f73e6f708758d7dbb010364f35de9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 19/21] fix: Leave the shell if its input cannot be read

It repeated the same error forever otherwise.
---
 cli/src/processor/shell.rs | 21 +++++++++++++++++++--
 cli/src/processor/utils.rs |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/cli/src/processor/shell.rs b/cli/src/processor/shell.rs
index c71204c..a56efe3 100644
--- a/cli/src/processor/shell.rs
+++ b/cli/src/processor/shell.rs
@@ -4,6 +4,7 @@
  * http://mozilla.org/MPL/2.0/.
  */
 
+use super::utils::format_input_error;
 use crate::args::{Args, Commands};
 use clap::{CommandFactory, FromArgMatches};
 use pfp::passwords::Passwords;
@@ -21,6 +22,17 @@ fn get_default_history_path() -> std::path::PathBuf {
     path
 }
 
+/// Checks whether reading more input can be expected to fail as well, in contrast to a line that
+/// merely isn't valid text.
+fn is_permanent(error: &ReadlineError) -> bool {
+    match error {
+        ReadlineError::Io(error) => error.kind() != std::io::ErrorKind::InvalidData,
+        #[cfg(unix)]
+        ReadlineError::Errno(_) => true,
+        _ => false,
+    }
+}
+
 pub fn processor<IO: storage_io::StorageIO>(
     args: &Args,
     storage_path: &std::path::PathBuf,
@@ -42,6 +54,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         );
     }
 
+    let mut result = Ok(());
     println!("Enter a command or type 'help' for a list of commands. Enter 'help <command>' for detailed information on a command.");
     std::io::stdout().flush().unwrap();
     loop {
@@ -109,9 +122,13 @@ pub fn processor<IO: storage_io::StorageIO>(
             Err(ReadlineError::Eof) => {
                 break;
             }
-            Err(error) => {
+            Err(error) if !is_permanent(&error) => {
                 eprintln!("Error: {:?}", error);
             }
+            Err(error) => {
+                result = Err(format_input_error(error));
+                break;
+            }
         }
     }
 
@@ -123,5 +140,5 @@ pub fn processor<IO: storage_io::StorageIO>(
         );
     }
 
-    Ok(())
+    result
 }
diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index 4acd57e..6d338a4 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -68,7 +68,7 @@ impl<T> ConvertError<T> for Result<T, Error> {
     }
 }
 
-fn format_input_error(error: impl std::fmt::Display) -> String {
+pub fn format_input_error(error: impl std::fmt::Display) -> String {
     format!("Failed reading input ({}).", error)
 }
 
-- 
2.43.0


From 1d59cb4787ad4817bd9544eca458b734b093f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 20/21] fix: Report damaged password generation parameters
 rather than crash

---
 pfp/src/passwords.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 519a0f8..4d8fe3f 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -18,6 +18,9 @@ use crate::storage_types::{
 use rand::Rng;
 use secrecy::{SecretString, SecretVec};
 
+/// Upper limit for the length of generated passwords, anything beyond that is damaged data.
+const MAX_GENERATED_LENGTH: usize = 65536;
+
 /// Generates the storage data encryption key.
 ///
 /// The encryption key is always derived from a particular secret primary password. Salt should be a
@@ -343,12 +346,21 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         )?;
 
         match password {
-            Password::Generated(password) => Ok(crypto::derive_password(
-                primary_password,
-                &password.salt(),
-                password.length(),
-                password.charset(),
-            )),
+            Password::Generated(password) => {
+                if password.charset().is_empty()
+                    || password.length() == 0
+                    || password.length() > MAX_GENERATED_LENGTH
+                {
+                    // Damaged entry, no password can be generated from these parameters
+                    return Err(Error::UnexpectedData);
+                }
+                Ok(crypto::derive_password(
+                    primary_password,
+                    &password.salt(),
+                    password.length(),
+                    password.charset(),
+                ))
+            }
             Password::Stored(password) => Ok(password.password().clone()),
         }
     }
-- 
2.43.0


From 1bcd63a357b6e7a2a190f2a82511b813d75f53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 21/21] fix: Don't cite decrypted data in error messages

If an entry isn't what it should be (for example because the HMAC secret was
put in its place), errors of the JSON parser contained the unexpected value.
This could be the HMAC secret, a password or notes.
---
 pfp/src/json/mod.rs | 14 ++++++++++++++
 pfp/src/storage.rs  |  5 +++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pfp/src/json/mod.rs b/pfp/src/json/mod.rs
index 0a1b959..c0e4b97 100644
--- a/pfp/src/json/mod.rs
+++ b/pfp/src/json/mod.rs
@@ -43,3 +43,17 @@ where
     serde_json::to_writer(&mut result, value)?;
     Ok(result)
 }
+
+/// Parses decrypted data. Unlike the original ones, errors won't cite any part of the data.
+pub fn from_secret_slice<'de, T>(data: &'de [u8]) -> Result<T, Error>
+where
+    T: Deserializable<'de>,
+{
+    from_slice(data).map_err(|error| {
+        if error.is_data() {
+            de::Error::custom("unexpected data structure")
+        } else {
+            error
+        }
+    })
+}
diff --git a/pfp/src/storage.rs b/pfp/src/storage.rs
index d9f5f30..bd2fc6f 100644
--- a/pfp/src/storage.rs
+++ b/pfp/src/storage.rs
@@ -56,7 +56,8 @@ impl<IO: storage_io::StorageIO> Storage<IO> {
     {
         let value = self.io.get(key)?;
         let decrypted = crypto::decrypt_data(value, encryption_key)?;
-        json::from_slice(decrypted.expose_secret()).map_err(|error| Error::InvalidJson { error })
+        json::from_secret_slice(decrypted.expose_secret())
+            .map_err(|error| Error::InvalidJson { error })
     }
 
     fn set<T>(&mut self, key: &str, value: &T, encryption_key: &SecretVec<u8>) -> Result<(), Error>
@@ -95,7 +96,7 @@ impl<IO: storage_io::StorageIO> Storage<IO> {
             .map_err(|_| Error::StorageNotInitialized)?;
         let decrypted = crypto::decrypt_data(ciphertext, encryption_key)?;
         let hmac_secret = SecretString::new(
-            json::from_slice::<String>(decrypted.expose_secret())
+            json::from_secret_slice::<String>(decrypted.expose_secret())
                 .map_err(|error| Error::InvalidJson { error })?,
         );
 
-- 
2.43.0

