From d03f04505f154d8617a584a71ad9bec43196aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 01/61] fix: PUT /?partNumber=..&uploadId=.. on the root path
 panicked

UploadPart matched any path level; extract() then panicked in
unwrap_object_path for the root path.
---
 src/ops/upload_part.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7e6276c..7951a5f 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -22,6 +22,7 @@ pub struct Handler;
 impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
+        bool_try!(ctx.path.is_object());
         let qs = bool_try_some!(ctx.query_strings.as_ref());
         qs.get("partNumber").is_some() && qs.get("uploadId").is_some()
     }
-- 
2.43.0


From 6773d4bd72d3a8e7460909c99ed659028c86ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 02/61] fix: clip byte ranges to the object

A range ending past the object announced more bytes than were sent, a
suffix longer than the object was refused and 'bytes=-0' was satisfied.
---
 src/storages/fs.rs | 55 ++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 551c52b..a9ec73b 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -355,41 +355,34 @@ impl S3Storage for FileSystem {
 
         let content_length = {
             let file_len = file_metadata.len();
-            let content_len = match range {
-                None => file_len,
-                Some(Range::Normal { first, last }) => {
-                    if first >= file_len {
-                        let err =
-                            code_error!(InvalidRange, "The requested range cannot be satisfied.");
-                        return Err(err.into());
-                    }
-                    let _ = trace_try!(file.seek(SeekFrom::Start(first)).await);
-
-                    // HTTP byte range is inclusive
-                    //      len = last + 1 - first
-                    // or   len = file_len - first
 
-                    last.and_then(|x| x.checked_add(1))
-                        .unwrap_or(file_len)
-                        .wrapping_sub(first)
-                }
+            // HTTP byte range is inclusive, and is clipped to the end of the object
+            let span = match range {
+                None => Some((0, file_len)),
+                Some(Range::Normal { first, last }) => (first < file_len).then(|| {
+                    let end = last
+                        .and_then(|x| x.checked_add(1))
+                        .map_or(file_len, |x| x.min(file_len));
+                    (first, end)
+                }),
                 Some(Range::Suffix { last }) => {
-                    let offset = Some(last)
-                        .filter(|&x| x <= file_len)
-                        .and_then(|x| i64::try_from(x).ok())
-                        .and_then(i64::checked_neg);
-
-                    if let Some(x) = offset {
-                        let _ = trace_try!(file.seek(SeekFrom::End(x)).await);
-                    } else {
-                        let err =
-                            code_error!(InvalidRange, "The requested range cannot be satisfied.");
-                        return Err(err.into());
-                    }
-                    last
+                    (last > 0 && file_len > 0).then(|| (file_len.saturating_sub(last), file_len))
+                }
+            };
+
+            let (start, end) = match span {
+                Some(span) => span,
+                None => {
+                    let err = code_error!(InvalidRange, "The requested range cannot be satisfied.");
+                    return Err(err.into());
                 }
             };
-            trace_try!(usize::try_from(content_len))
+
+            if start > 0 {
+                let _ = trace_try!(file.seek(SeekFrom::Start(start)).await);
+            }
+
+            trace_try!(usize::try_from(end.wrapping_sub(start)))
         };
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
-- 
2.43.0


From 2b505fc3424134eac96dd7380c8e27f4dfb2f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 03/61] fix: answer a range read with 206 and Content-Range

A client could not tell a partial body from the whole object.
---
 src/ops/get_object.rs |  5 ++++-
 src/storages/fs.rs    | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 88d347f..ae74abe 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -18,7 +18,7 @@ use crate::headers::{
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{time, ResponseExt};
-use crate::{async_trait, Body, Method, Response};
+use crate::{async_trait, Body, Method, Response, StatusCode};
 
 /// `GetObject` handler
 pub struct Handler;
@@ -104,6 +104,9 @@ impl S3Output for GetObjectOutput {
             res.set_optional_header(CONTENT_DISPOSITION, self.content_disposition)?;
             res.set_optional_header(CONTENT_ENCODING, self.content_encoding)?;
             res.set_optional_header(CONTENT_LANGUAGE, self.content_language)?;
+            if self.content_range.is_some() {
+                res.set_status(StatusCode::PARTIAL_CONTENT);
+            }
             res.set_optional_header(CONTENT_RANGE, self.content_range)?;
             res.set_optional_header(CONTENT_TYPE, self.content_type)?;
 
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a9ec73b..324fb9d 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -353,9 +353,11 @@ impl S3Storage for FileSystem {
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let content_length = {
+        let (content_length, content_range) = {
             let file_len = file_metadata.len();
 
+            let is_partial = range.is_some();
+
             // HTTP byte range is inclusive, and is clipped to the end of the object
             let span = match range {
                 None => Some((0, file_len)),
@@ -382,7 +384,11 @@ impl S3Storage for FileSystem {
                 let _ = trace_try!(file.seek(SeekFrom::Start(start)).await);
             }
 
-            trace_try!(usize::try_from(end.wrapping_sub(start)))
+            let content_range = is_partial
+                .then(|| format!("bytes {}-{}/{}", start, end.saturating_sub(1), file_len));
+
+            let content_length = trace_try!(usize::try_from(end.wrapping_sub(start)));
+            (content_length, content_range)
         };
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
@@ -407,6 +413,7 @@ impl S3Storage for FileSystem {
         let output: GetObjectOutput = GetObjectOutput {
             body: Some(crate::dto::ByteStream::new(stream)),
             content_length: Some(trace_try!(content_length.try_into())),
+            content_range,
             last_modified: Some(last_modified),
             metadata: object_metadata,
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From 0d2d33522b4eb4d8be54e4b3695abdfe836a5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 04/61] fix: publish uploaded objects and parts atomically

PutObject and UploadPart wrote straight into the destination: a broken
upload destroyed the previous version, readers saw half-written objects
and concurrent uploads were interleaved. Write to a private file, then
rename it.
---
 src/storages/fs.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 324fb9d..c7f50e6 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -140,6 +140,36 @@ impl FileSystem {
     }
 }
 
+/// A private file in the root directory: it becomes visible when it is persisted, otherwise it is removed
+#[derive(Debug)]
+struct TempFile {
+    /// current path
+    path: PathBuf,
+}
+
+impl TempFile {
+    /// Creates an empty temporary file under the root.
+    ///
+    /// The file is created synchronously, so that a cancelled request can not leave it behind.
+    fn create(root: &Path) -> io::Result<(Self, File)> {
+        let path = root.join(format!(".tmp-{}", Uuid::new_v4()));
+        let file = std::fs::File::create(&path)?;
+        Ok((Self { path }, File::from(file)))
+    }
+
+    /// Moves the file to its destination atomically
+    fn persist(self, dst: &Path) -> io::Result<()> {
+        std::fs::rename(&self.path, dst)
+    }
+}
+
+impl Drop for TempFile {
+    fn drop(&mut self) {
+        // already gone if the file has been persisted
+        let _ret = std::fs::remove_file(&self.path);
+    }
+}
+
 /// copy bytes from a stream to a writer
 async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> io::Result<usize>
 where
@@ -683,12 +713,14 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&object_path).await);
+        let (temp_file, file) = trace_try!(TempFile::create(&self.root));
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        drop(writer);
+        trace_try!(temp_file.persist(&object_path));
 
         debug!(
             path = %object_path.display(),
@@ -749,12 +781,14 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&file_path).await);
+        let (temp_file, file) = trace_try!(TempFile::create(&self.root));
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        drop(writer);
+        trace_try!(temp_file.persist(&file_path));
 
         debug!(
             path = %file_path.display(),
-- 
2.43.0


From 82b72eaf03b2045af478175217a72c99b8d76f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 05/61] fix: GetObject computed the ETag from a different open
 of the object

When the object was replaced between the two opens, the ETag did not
belong to the returned body.
---
 src/storages/fs.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index c7f50e6..8c9ad93 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -117,10 +117,8 @@ impl FileSystem {
         async_fs::write(&path, &content).await
     }
 
-    /// get md5 sum
-    async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
-        let object_path = self.get_object_path(bucket, key)?;
-        let mut file = File::open(&object_path).await?;
+    /// get md5 sum of an open file, from its current position to its end
+    async fn get_md5_sum(file: &mut File) -> io::Result<String> {
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -269,7 +267,8 @@ impl S3Storage for FileSystem {
             let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
         }
 
-        let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
+        let mut file = trace_try!(File::open(&dst_path).await);
+        let md5_sum = trace_try!(Self::get_md5_sum(&mut file).await);
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
@@ -383,7 +382,7 @@ impl S3Storage for FileSystem {
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let (content_length, content_range) = {
+        let (start, content_length, content_range) = {
             let file_len = file_metadata.len();
 
             let is_partial = range.is_some();
@@ -410,28 +409,25 @@ impl S3Storage for FileSystem {
                 }
             };
 
-            if start > 0 {
-                let _ = trace_try!(file.seek(SeekFrom::Start(start)).await);
-            }
-
             let content_range = is_partial
                 .then(|| format!("bytes {}-{}/{}", start, end.saturating_sub(1), file_len));
 
             let content_length = trace_try!(usize::try_from(end.wrapping_sub(start)));
-            (content_length, content_range)
+            (start, content_length, content_range)
         };
 
-        let stream = BytesStream::new(file, 4096, Some(content_length));
-
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
         let (md5_sum, duration) = {
-            let (ret, duration) =
-                time::count_duration(self.get_md5_sum(&input.bucket, &input.key)).await;
+            // the body is read from the same file, even if the object is replaced meanwhile
+            let (ret, duration) = time::count_duration(Self::get_md5_sum(&mut file)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
 
+        let _ = trace_try!(file.seek(SeekFrom::Start(start)).await);
+        let stream = BytesStream::new(file, 4096, Some(content_length));
+
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
@@ -866,7 +862,8 @@ impl S3Storage for FileSystem {
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&bucket, &key)).await;
+            let mut file = trace_try!(File::open(&object_path).await);
+            let (ret, duration) = time::count_duration(Self::get_md5_sum(&mut file)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
-- 
2.43.0


From 157850d5d8e97e51ddc9413c17a2eace8397661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 06/61] fix: object keys could name files outside their bucket

A key such as ../other/x or an absolute path resolved to another bucket
or to a private file in the root directory.
---
 src/storages/fs.rs | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8c9ad93..888e53d 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
     UploadPartRequest,
 };
-use crate::errors::{S3StorageError, S3StorageResult};
+use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -27,7 +27,7 @@ use std::collections::{HashMap, VecDeque};
 use std::convert::TryInto;
 use std::env;
 use std::io::{self, SeekFrom};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
@@ -55,14 +55,17 @@ impl FileSystem {
         Ok(Self { root })
     }
 
-    /// resolve object path under the virtual root
-    fn get_object_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
-        let dir = Path::new(&bucket);
-        let file_path = Path::new(&key);
-        let ans = dir
-            .join(&file_path)
-            .absolutize_virtually(&self.root)?
-            .into();
+    /// resolve object path under the bucket
+    fn get_object_path(&self, bucket: &str, key: &str) -> S3Result<PathBuf> {
+        let bucket_path = trace_try!(self.get_bucket_path(bucket));
+
+        // a key must not name anything but a file in its bucket
+        let is_normal = |c| matches!(c, Component::Normal(_) | Component::CurDir);
+        let ans = bucket_path.join(key);
+        if !Path::new(key).components().all(is_normal) || ans == bucket_path || key.contains('\0')
+        {
+            return Err(code_error!(InvalidURI, "Couldn't parse the specified URI."));
+        }
         Ok(ans)
     }
 
@@ -247,8 +250,8 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
-        let src_path = trace_try!(self.get_object_path(bucket, key));
-        let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let src_path = self.get_object_path(bucket, key)?;
+        let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
@@ -297,7 +300,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
         if input.key.ends_with('/') {
             let mut dir = trace_try!(async_fs::read_dir(&path).await);
             let is_empty = dir.next().await.is_none();
@@ -318,7 +321,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
-            let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
+            let path = self.get_object_path(&input.bucket, &object.key)?;
             if path.exists() {
                 objects.push((path, object.key));
             }
@@ -363,7 +366,7 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
-        let object_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let object_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let parse_range = |s: &str| {
             Range::from_header_str(s).map_err(|err| invalid_request!("Invalid header: range", err))
@@ -469,7 +472,7 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
 
         if !path.exists() {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
@@ -689,7 +692,7 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
-                let object_path = trace_try!(self.get_object_path(&bucket, &key));
+                let object_path = self.get_object_path(&bucket, &key)?;
                 trace_try!(async_fs::create_dir_all(&object_path).await);
                 let output = PutObjectOutput::default();
                 return Ok(output);
@@ -701,7 +704,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         if let Some(dir_path) = object_path.parent() {
             trace_try!(async_fs::create_dir_all(&dir_path).await);
         }
@@ -824,7 +827,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         let file = trace_try!(File::create(&object_path).await);
         let mut writer = BufWriter::new(file);
 
-- 
2.43.0


From 534964d892d9124927b8e063de79a7181b08469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 07/61] fix: uploads brought missing buckets into existence

PutObject created the directory of any bucket named in the request, so a
typo or an upload racing DeleteBucket made a new bucket.
---
 src/storages/fs.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 888e53d..6a21195 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -76,6 +76,18 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// check that a bucket exists
+    fn check_bucket(&self, bucket: &str) -> S3Result<()> {
+        let path = trace_try!(self.get_bucket_path(bucket));
+        if !path.is_dir() {
+            return Err(code_error!(
+                NoSuchBucket,
+                "The specified bucket does not exist."
+            ));
+        }
+        Ok(())
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
@@ -690,6 +702,8 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        self.check_bucket(&bucket)?;
+
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = self.get_object_path(&bucket, &key)?;
@@ -746,6 +760,8 @@ impl S3Storage for FileSystem {
         &self,
         input: CreateMultipartUploadRequest,
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
+        self.check_bucket(&input.bucket)?;
+
         let upload_id = Uuid::new_v4().to_string();
 
         let output = CreateMultipartUploadOutput {
-- 
2.43.0


From 77574d667791360a3307d995bebcf06f8e62cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 08/61] fix: an object kept the metadata of an earlier version

Overwriting without metadata, or deleting and re-creating an object,
left the old metadata file in place, and readers could see one version's
body with another one's metadata. Replace, remove and open the two files
together.
---
 src/storages/fs.rs | 151 ++++++++++++++++++++++++++++++---------------
 1 file changed, 100 insertions(+), 51 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 6a21195..8f989fc 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -28,6 +28,7 @@ use std::convert::TryInto;
 use std::env;
 use std::io::{self, SeekFrom};
 use std::path::{Component, Path, PathBuf};
+use std::sync::{Mutex, PoisonError};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
@@ -44,6 +45,9 @@ use async_fs::File;
 pub struct FileSystem {
     /// root path
     root: PathBuf,
+
+    /// held (never across an await) while an object and its metadata are replaced, removed or opened together
+    lock: Mutex<()>,
 }
 
 impl FileSystem {
@@ -52,7 +56,10 @@ impl FileSystem {
     /// Returns an `Err` if current working directory is invalid or `root` doesn't exist
     pub fn new(root: impl AsRef<Path>) -> io::Result<Self> {
         let root = env::current_dir()?.join(root).canonicalize()?;
-        Ok(Self { root })
+        Ok(Self {
+            root,
+            lock: Mutex::new(()),
+        })
     }
 
     /// resolve object path under the bucket
@@ -62,8 +69,7 @@ impl FileSystem {
         // a key must not name anything but a file in its bucket
         let is_normal = |c| matches!(c, Component::Normal(_) | Component::CurDir);
         let ans = bucket_path.join(key);
-        if !Path::new(key).components().all(is_normal) || ans == bucket_path || key.contains('\0')
-        {
+        if !Path::new(key).components().all(is_normal) || ans == bucket_path || key.contains('\0') {
             return Err(code_error!(InvalidURI, "Couldn't parse the specified URI."));
         }
         Ok(ans)
@@ -103,33 +109,91 @@ impl FileSystem {
     }
 
     /// load metadata from fs
-    async fn load_metadata(
+    fn load_metadata(
         &self,
         bucket: &str,
         key: &str,
     ) -> io::Result<Option<HashMap<String, String>>> {
         let path = self.get_metadata_path(bucket, key)?;
-        if path.exists() {
-            let content = async_fs::read(&path).await?;
-            let map = serde_json::from_slice(&content)
-                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-            Ok(Some(map))
-        } else {
-            Ok(None)
+        match std::fs::read(&path) {
+            Ok(content) => {
+                let map = serde_json::from_slice(&content)
+                    .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+                Ok(Some(map))
+            }
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(None),
+            Err(e) => Err(e),
         }
     }
 
-    /// save metadata
-    async fn save_metadata(
+    /// open an object together with its metadata
+    fn open_object(
         &self,
         bucket: &str,
         key: &str,
-        metadata: &HashMap<String, String>,
-    ) -> io::Result<()> {
-        let path = self.get_metadata_path(bucket, key)?;
-        let content = serde_json::to_vec(metadata)
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        async_fs::write(&path, &content).await
+    ) -> S3Result<(File, Option<HashMap<String, String>>)> {
+        let path = self.get_object_path(bucket, key)?;
+
+        let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+
+        let file = match std::fs::File::open(&path) {
+            Ok(file) => file,
+            Err(e) => {
+                error!(error = %e, "open object");
+                return Err(code_error!(NoSuchKey, "The specified key does not exist."));
+            }
+        };
+        let metadata = trace_try!(self.load_metadata(bucket, key));
+        Ok((File::from(file), metadata))
+    }
+
+    /// replace an object together with its metadata
+    fn commit_object(
+        &self,
+        temp_file: TempFile,
+        bucket: &str,
+        key: &str,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> S3Result<()> {
+        let object_path = self.get_object_path(bucket, key)?;
+        let metadata_path = trace_try!(self.get_metadata_path(bucket, key));
+
+        let metadata_file = match metadata {
+            None => None,
+            Some(metadata) => {
+                let content = trace_try!(serde_json::to_vec(metadata));
+                let (metadata_file, _) = trace_try!(TempFile::create(&self.root));
+                trace_try!(std::fs::write(&metadata_file.path, &content));
+                Some(metadata_file)
+            }
+        };
+
+        let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+
+        self.check_bucket(bucket)?;
+        if let Some(dir_path) = object_path.parent() {
+            trace_try!(std::fs::create_dir_all(&dir_path));
+        }
+
+        // the metadata of the previous version must never be seen with the new one
+        trace_try!(remove_file_if_exists(&metadata_path));
+        trace_try!(temp_file.persist(&object_path));
+        if let Some(metadata_file) = metadata_file {
+            trace_try!(metadata_file.persist(&metadata_path));
+        }
+        Ok(())
+    }
+
+    /// remove an object together with its metadata
+    fn remove_object(&self, bucket: &str, key: &str) -> S3Result<()> {
+        let object_path = self.get_object_path(bucket, key)?;
+        let metadata_path = trace_try!(self.get_metadata_path(bucket, key));
+
+        let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+
+        trace_try!(std::fs::remove_file(&object_path));
+        trace_try!(remove_file_if_exists(&metadata_path));
+        Ok(())
     }
 
     /// get md5 sum of an open file, from its current position to its end
@@ -183,6 +247,14 @@ impl Drop for TempFile {
     }
 }
 
+/// remove a file, which may not exist
+fn remove_file_if_exists(path: &Path) -> io::Result<()> {
+    match std::fs::remove_file(path) {
+        Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
+        Ok(()) | Err(_) => Ok(()),
+    }
+}
+
 /// copy bytes from a stream to a writer
 async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> io::Result<usize>
 where
@@ -320,7 +392,7 @@ impl S3Storage for FileSystem {
                 trace_try!(async_fs::remove_dir(&path).await);
             }
         } else {
-            trace_try!(async_fs::remove_file(path).await);
+            self.remove_object(&input.bucket, &input.key)?;
         }
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
@@ -331,17 +403,17 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectsRequest,
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
-        let mut objects: Vec<(PathBuf, String)> = Vec::new();
+        let mut objects: Vec<String> = Vec::new();
         for object in input.delete.objects {
             let path = self.get_object_path(&input.bucket, &object.key)?;
             if path.exists() {
-                objects.push((path, object.key));
+                objects.push(object.key);
             }
         }
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
-        for (path, key) in objects {
-            trace_try!(async_fs::remove_file(path).await);
+        for key in objects {
+            self.remove_object(&input.bucket, &key)?;
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
@@ -385,14 +457,7 @@ impl S3Storage for FileSystem {
         };
         let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
 
-        let mut file = match File::open(&object_path).await {
-            Ok(file) => file,
-            Err(e) => {
-                error!(error = %e, "GetObject: open file");
-                let err = code_error!(NoSuchKey, "The specified key does not exist.");
-                return Err(err.into());
-            }
-        };
+        let (mut file, object_metadata) = self.open_object(&input.bucket, &input.key)?;
 
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
@@ -431,8 +496,6 @@ impl S3Storage for FileSystem {
             (start, content_length, content_range)
         };
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
-
         let (md5_sum, duration) = {
             // the body is read from the same file, even if the object is replaced meanwhile
             let (ret, duration) = time::count_duration(Self::get_md5_sum(&mut file)).await;
@@ -484,19 +547,12 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        let path = self.get_object_path(&input.bucket, &input.key)?;
+        let (file, object_metadata) = self.open_object(&input.bucket, &input.key)?;
 
-        if !path.exists() {
-            let err = code_error!(NoSuchKey, "The specified key does not exist.");
-            return Err(err.into());
-        }
-
-        let file_metadata = trace_try!(async_fs::metadata(path).await);
+        let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
         let size = file_metadata.len();
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
-
         let output: HeadObjectOutput = HeadObjectOutput {
             content_length: Some(trace_try!(size.try_into())),
             content_type: Some(mime::APPLICATION_OCTET_STREAM.as_ref().to_owned()), // TODO: handle content type
@@ -719,9 +775,6 @@ impl S3Storage for FileSystem {
         }
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -733,7 +786,7 @@ impl S3Storage for FileSystem {
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
         drop(writer);
-        trace_try!(temp_file.persist(&object_path));
+        self.commit_object(temp_file, &bucket, &key, metadata.as_ref())?;
 
         debug!(
             path = %object_path.display(),
@@ -743,10 +796,6 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
-        if let Some(ref metadata) = metadata {
-            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
-        }
-
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
             ..PutObjectOutput::default()
-- 
2.43.0


From 7a8cdd37807e72ab4a72d00e528254e869fcd81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 09/61] fix: CopyObject onto itself emptied the object

Copying a key to itself truncated it; a copy was visible half-written,
failed when the destination had a missing parent directory and answered
an internal error for a missing source.
---
 src/storages/fs.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8f989fc..8ad7083 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -334,29 +334,29 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
-        let src_path = self.get_object_path(bucket, key)?;
+        self.check_bucket(&input.bucket)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
-        let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
+        let (mut src_file, metadata) = self.open_object(bucket, key)?;
+
+        let file_metadata = trace_try!(src_file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let _ = trace_try!(async_fs::copy(&src_path, &dst_path).await);
+        let (temp_file, mut dst_file) = trace_try!(TempFile::create(&self.root));
+        let _ = trace_try!(futures::io::copy(&mut src_file, &mut dst_file).await);
+        drop(dst_file);
+
+        let _ = trace_try!(src_file.seek(SeekFrom::Start(0)).await);
+        let md5_sum = trace_try!(Self::get_md5_sum(&mut src_file).await);
+
+        self.commit_object(temp_file, &input.bucket, &input.key, metadata.as_ref())?;
 
         debug!(
-            from = %src_path.display(),
+            from = %input.copy_source,
             to = %dst_path.display(),
             "CopyObject: copy file",
         );
 
-        let src_metadata_path = trace_try!(self.get_metadata_path(bucket, key));
-        if src_metadata_path.exists() {
-            let dst_metadata_path = trace_try!(self.get_metadata_path(&input.bucket, &input.key));
-            let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
-        }
-
-        let mut file = trace_try!(File::open(&dst_path).await);
-        let md5_sum = trace_try!(Self::get_md5_sum(&mut file).await);
-
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
                 e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From 7300251bd126a89eff4aab783012b80ac4bded54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 10/61] fix: decode x-amz-copy-source

The header is URL-encoded and may start with a slash: objects whose keys
need encoding could not be copied.
---
 src/headers/amz_copy_source.rs | 14 +++++---------
 src/storages/fs.rs             |  4 +++-
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/headers/amz_copy_source.rs b/src/headers/amz_copy_source.rs
index 185394b..d11241d 100644
--- a/src/headers/amz_copy_source.rs
+++ b/src/headers/amz_copy_source.rs
@@ -63,20 +63,16 @@ impl<'a> AmzCopySource<'a> {
     /// Parses `AmzCopySource` from header
     /// # Errors
     /// Returns an error if the header is invalid
-    #[allow(clippy::unwrap_in_result, clippy::missing_panics_doc)]
     pub fn from_header_str(header: &'a str) -> Result<Self, ParseAmzCopySourceError> {
         // TODO: support access point
         // TODO: use nom parser
 
-        // bucket pattern
-        let pattern: &Regex = static_regex!("^(.+?)/(.+)$");
-
-        match pattern.captures(header) {
-            None => Err(ParseAmzCopySourceError::PatternMismatch),
-            Some(captures) => {
-                let bucket = captures.get(1).expect("failed to capture bucket").as_str();
-                let key = captures.get(2).expect("failed to capture key").as_str();
+        // both `bucket/key` and `/bucket/key` are allowed
+        let path = header.strip_prefix('/').unwrap_or(header);
 
+        match path.split_once('/') {
+            None | Some(("", _) | (_, "")) => Err(ParseAmzCopySourceError::PatternMismatch),
+            Some((bucket, key)) => {
                 if !S3Path::check_bucket_name(bucket) {
                     return Err(ParseAmzCopySourceError::InvalidBucketName);
                 }
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8ad7083..f72bd66 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -324,7 +324,9 @@ impl S3Storage for FileSystem {
         &self,
         input: CopyObjectRequest,
     ) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
-        let copy_source = AmzCopySource::from_header_str(&input.copy_source)
+        let copy_source = urlencoding::decode(&input.copy_source)
+            .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
+        let copy_source = AmzCopySource::from_header_str(&copy_source)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let (bucket, key) = match copy_source {
-- 
2.43.0


From 31ab764ca7df3018e85971745c83ff74e66db15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 11/61] fix: check a multipart upload before publishing it

Upload ids were neither checked (an id with path separators read,
overwrote and deleted other files) nor bound to their object, and
CompleteMultipartUpload emptied the object and deleted parts before
looking at the list: a missing part, a wrong order, an empty list or a
repeated request destroyed data. Remember initiated uploads, validate
the request first and publish the assembled file atomically.
---
 src/storages/fs.rs | 179 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 153 insertions(+), 26 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f72bd66..c831eca 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -35,6 +35,7 @@ use futures::stream::{Stream, StreamExt, TryStreamExt};
 use hyper::body::Bytes;
 use md5::{Digest, Md5};
 use path_absolutize::Absolutize;
+use serde::{Deserialize, Serialize};
 use tracing::{debug, error};
 use uuid::Uuid;
 
@@ -108,6 +109,54 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// resolve the path of a file belonging to a multipart upload
+    fn get_upload_path(&self, upload_id: &str, suffix: &str) -> PathBuf {
+        self.root.join(format!(".upload_id-{upload_id}.{suffix}"))
+    }
+
+    /// resolve the path of a part of a multipart upload
+    fn get_part_path(&self, upload_id: &str, part_number: i64) -> PathBuf {
+        self.get_upload_path(upload_id, &format!("part-{part_number}"))
+    }
+
+    /// check that a multipart upload is in progress and belongs to the object
+    fn check_upload(&self, bucket: &str, key: &str, upload_id: &str) -> S3Result<UploadInfo> {
+        // the id becomes a part of file names
+        let is_valid_id =
+            Uuid::parse_str(upload_id).map_or(false, |id| id.to_string() == upload_id);
+
+        if is_valid_id {
+            match std::fs::read(self.get_upload_path(upload_id, "json")) {
+                Ok(content) => {
+                    let info: UploadInfo = trace_try!(serde_json::from_slice(&content));
+                    if info.bucket == bucket && info.key == key {
+                        return Ok(info);
+                    }
+                }
+                Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+                Err(e) => trace_try!(Err(e)),
+            }
+        }
+
+        Err(code_error!(
+            NoSuchUpload,
+            "The specified multipart upload does not exist."
+        ))
+    }
+
+    /// remove the files of a finished multipart upload
+    async fn remove_upload(&self, upload_id: &str) -> io::Result<()> {
+        let prefix = format!(".upload_id-{upload_id}.");
+        let mut iter = async_fs::read_dir(&self.root).await?;
+        while let Some(entry) = iter.next().await {
+            let entry = entry?;
+            if entry.file_name().to_string_lossy().starts_with(&prefix) {
+                remove_file_if_exists(&entry.path())?;
+            }
+        }
+        Ok(())
+    }
+
     /// load metadata from fs
     fn load_metadata(
         &self,
@@ -147,13 +196,14 @@ impl FileSystem {
         Ok((File::from(file), metadata))
     }
 
-    /// replace an object together with its metadata
+    /// replace an object together with its metadata, and finish its multipart upload (if any)
     fn commit_object(
         &self,
         temp_file: TempFile,
         bucket: &str,
         key: &str,
         metadata: Option<&HashMap<String, String>>,
+        upload_id: Option<&str>,
     ) -> S3Result<()> {
         let object_path = self.get_object_path(bucket, key)?;
         let metadata_path = trace_try!(self.get_metadata_path(bucket, key));
@@ -171,6 +221,9 @@ impl FileSystem {
         let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
 
         self.check_bucket(bucket)?;
+        if let Some(upload_id) = upload_id {
+            let _info = self.check_upload(bucket, key, upload_id)?;
+        }
         if let Some(dir_path) = object_path.parent() {
             trace_try!(std::fs::create_dir_all(&dir_path));
         }
@@ -181,6 +234,11 @@ impl FileSystem {
         if let Some(metadata_file) = metadata_file {
             trace_try!(metadata_file.persist(&metadata_path));
         }
+        if let Some(upload_id) = upload_id {
+            trace_try!(remove_file_if_exists(
+                &self.get_upload_path(upload_id, "json")
+            ));
+        }
         Ok(())
     }
 
@@ -217,6 +275,15 @@ impl FileSystem {
     }
 }
 
+/// What a multipart upload was initiated for
+#[derive(Debug, Serialize, Deserialize)]
+struct UploadInfo {
+    /// bucket name
+    bucket: String,
+    /// object key
+    key: String,
+}
+
 /// A private file in the root directory: it becomes visible when it is persisted, otherwise it is removed
 #[derive(Debug)]
 struct TempFile {
@@ -351,7 +418,13 @@ impl S3Storage for FileSystem {
         let _ = trace_try!(src_file.seek(SeekFrom::Start(0)).await);
         let md5_sum = trace_try!(Self::get_md5_sum(&mut src_file).await);
 
-        self.commit_object(temp_file, &input.bucket, &input.key, metadata.as_ref())?;
+        self.commit_object(
+            temp_file,
+            &input.bucket,
+            &input.key,
+            metadata.as_ref(),
+            None,
+        )?;
 
         debug!(
             from = %input.copy_source,
@@ -788,7 +861,7 @@ impl S3Storage for FileSystem {
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
         drop(writer);
-        self.commit_object(temp_file, &bucket, &key, metadata.as_ref())?;
+        self.commit_object(temp_file, &bucket, &key, metadata.as_ref(), None)?;
 
         debug!(
             path = %object_path.display(),
@@ -813,8 +886,20 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
         self.check_bucket(&input.bucket)?;
 
+        // the key must be usable when the upload is completed
+        let _object_path = self.get_object_path(&input.bucket, &input.key)?;
+
         let upload_id = Uuid::new_v4().to_string();
 
+        let info = UploadInfo {
+            bucket: input.bucket.clone(),
+            key: input.key.clone(),
+        };
+        let content = trace_try!(serde_json::to_vec(&info));
+        let (temp_file, _) = trace_try!(TempFile::create(&self.root));
+        trace_try!(std::fs::write(&temp_file.path, &content));
+        trace_try!(temp_file.persist(&self.get_upload_path(&upload_id, "json")));
+
         let output = CreateMultipartUploadOutput {
             bucket: Some(input.bucket),
             key: Some(input.key),
@@ -832,6 +917,8 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<UploadPartOutput, UploadPartError> {
         let UploadPartRequest {
             body,
+            bucket,
+            key,
             upload_id,
             part_number,
             ..
@@ -841,8 +928,16 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
-        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-        let file_path = trace_try!(Path::new(&file_path_str).absolutize_virtually(&self.root));
+        if !(1..=10000).contains(&part_number) {
+            let err = code_error!(
+                InvalidArgument,
+                "Part number must be an integer between 1 and 10000, inclusive."
+            );
+            return Err(err.into());
+        }
+
+        let _info = self.check_upload(&bucket, &key, &upload_id)?;
+        let file_path = self.get_part_path(&upload_id, part_number);
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -854,7 +949,11 @@ impl S3Storage for FileSystem {
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
         drop(writer);
-        trace_try!(temp_file.persist(&file_path));
+        {
+            let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+            let _info = self.check_upload(&bucket, &key, &upload_id)?;
+            trace_try!(temp_file.persist(&file_path));
+        }
 
         debug!(
             path = %file_path.display(),
@@ -895,25 +994,50 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        let file = trace_try!(File::create(&object_path).await);
+        let _info = self.check_upload(&bucket, &key, &upload_id)?;
+
+        let parts = multipart_upload.parts.unwrap_or_default();
+        if parts.is_empty() {
+            let err = code_error!(MalformedXML, "You must specify at least one part.");
+            return Err(err.into());
+        }
+
+        let (temp_file, file) = trace_try!(TempFile::create(&self.root));
         let mut writer = BufWriter::new(file);
 
-        let mut cnt: i64 = 0;
-        for part in multipart_upload.parts.into_iter().flatten() {
-            let part_number = trace_try!(part
-                .part_number
-                .ok_or_else(|| { io::Error::new(io::ErrorKind::NotFound, "Missing part_number") }));
-            cnt = cnt.wrapping_add(1);
-            if part_number != cnt {
-                trace_try!(Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "InvalidPartOrder"
-                )));
+        let mut last_part_number: i64 = 0;
+        for part in parts {
+            let invalid_part = || {
+                code_error!(
+                    InvalidPart,
+                    "One or more of the specified parts could not be found."
+                )
+            };
+
+            let part_number = part.part_number.ok_or_else(invalid_part)?;
+            if part_number <= last_part_number {
+                let err = code_error!(
+                    InvalidPartOrder,
+                    "The list of parts was not in ascending order."
+                );
+                return Err(err.into());
+            }
+            last_part_number = part_number;
+
+            let part_path = self.get_part_path(&upload_id, part_number);
+            let mut reader = match File::open(&part_path).await {
+                Err(e) if e.kind() == io::ErrorKind::NotFound => return Err(invalid_part().into()),
+                ret => trace_try!(ret),
+            };
+
+            if let Some(ref e_tag) = part.e_tag {
+                let md5_sum = trace_try!(Self::get_md5_sum(&mut reader).await);
+                if e_tag.trim().trim_matches('"') != md5_sum {
+                    return Err(invalid_part().into());
+                }
+                let _ = trace_try!(reader.seek(SeekFrom::Start(0)).await);
             }
-            let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-            let part_path = trace_try!(Path::new(&part_path_str).absolutize_virtually(&self.root));
 
-            let mut reader = trace_try!(File::open(&part_path).await);
             let (ret, duration) =
                 time::count_duration(futures::io::copy(&mut reader, &mut writer)).await;
             let size = trace_try!(ret);
@@ -925,23 +1049,26 @@ impl S3Storage for FileSystem {
                 ?duration,
                 "CompleteMultipartUpload: write file",
             );
-            trace_try!(async_fs::remove_file(&part_path).await);
         }
+        trace_try!(writer.flush().await);
         drop(writer);
 
-        let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
-
         let (md5_sum, duration) = {
-            let mut file = trace_try!(File::open(&object_path).await);
+            let mut file = trace_try!(File::open(&temp_file.path).await);
             let (ret, duration) = time::count_duration(Self::get_md5_sum(&mut file)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
 
+        self.commit_object(temp_file, &bucket, &key, None, Some(&upload_id))?;
+
+        if let Err(e) = self.remove_upload(&upload_id).await {
+            error!(error = %e, "CompleteMultipartUpload: remove parts");
+        }
+
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
-            size = ?file_size,
             ?duration,
             "CompleteMultipartUpload: calculate md5 sum",
         );
-- 
2.43.0


From 7519d79536490977bd7c9dedacd74a4dfaeec2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 12/61] fix: keep the metadata given to CreateMultipartUpload

x-amz-meta headers of the initiating request were dropped.
---
 src/ops.rs                         | 15 +++++++++++++++
 src/ops/create_multipart_upload.rs |  2 ++
 src/storages/fs.rs                 | 13 +++++++++++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/ops.rs b/src/ops.rs
index db19c3d..1f64ff1 100644
--- a/src/ops.rs
+++ b/src/ops.rs
@@ -26,6 +26,7 @@ use crate::storage::S3Storage;
 use crate::streams::multipart::Multipart;
 use crate::{async_trait, Body, BoxStdError, Mime, Request, Response};
 
+use std::collections::HashMap;
 use std::fmt::Debug;
 use std::mem;
 
@@ -92,6 +93,20 @@ pub struct ReqContext<'a> {
 }
 
 impl<'a> ReqContext<'a> {
+    /// extract user metadata from headers
+    fn extract_metadata(&self) -> Option<HashMap<String, String>> {
+        let metadata: HashMap<String, String> = self
+            .headers
+            .as_ref()
+            .iter()
+            .filter_map(|&(name, value)| {
+                let meta_key = name.strip_prefix("x-amz-meta-")?;
+                (!meta_key.is_empty()).then(|| (meta_key.to_owned(), value.to_owned()))
+            })
+            .collect();
+        (!metadata.is_empty()).then(|| metadata)
+    }
+
     /// take request body
     fn take_body(&mut self) -> Body {
         mem::take(&mut self.body)
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 9ff5fb7..65c6c11 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -105,6 +105,8 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
         ..CreateMultipartUploadRequest::default()
     };
 
+    input.metadata = ctx.extract_metadata();
+
     let h = &ctx.headers;
     h.assign_str(X_AMZ_ACL, &mut input.acl);
     h.assign_str(CACHE_CONTROL, &mut input.cache_control);
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index c831eca..7c4d1bd 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -282,6 +282,8 @@ struct UploadInfo {
     bucket: String,
     /// object key
     key: String,
+    /// metadata of the object
+    metadata: Option<HashMap<String, String>>,
 }
 
 /// A private file in the root directory: it becomes visible when it is persisted, otherwise it is removed
@@ -894,6 +896,7 @@ impl S3Storage for FileSystem {
         let info = UploadInfo {
             bucket: input.bucket.clone(),
             key: input.key.clone(),
+            metadata: input.metadata,
         };
         let content = trace_try!(serde_json::to_vec(&info));
         let (temp_file, _) = trace_try!(TempFile::create(&self.root));
@@ -994,7 +997,7 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        let _info = self.check_upload(&bucket, &key, &upload_id)?;
+        let info = self.check_upload(&bucket, &key, &upload_id)?;
 
         let parts = multipart_upload.parts.unwrap_or_default();
         if parts.is_empty() {
@@ -1060,7 +1063,13 @@ impl S3Storage for FileSystem {
             (md5_sum, duration)
         };
 
-        self.commit_object(temp_file, &bucket, &key, None, Some(&upload_id))?;
+        self.commit_object(
+            temp_file,
+            &bucket,
+            &key,
+            info.metadata.as_ref(),
+            Some(&upload_id),
+        )?;
 
         if let Err(e) = self.remove_upload(&upload_id).await {
             error!(error = %e, "CompleteMultipartUpload: remove parts");
-- 
2.43.0


From da5831b71abbf4f598ac43286c76787617c093b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 13/61] fix: honour x-amz-metadata-directive: REPLACE in
 CopyObject

The new metadata was dropped and the source's kept.
---
 src/ops/copy_object.rs | 2 ++
 src/storages/fs.rs     | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 01d36c4..e24f83d 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -63,6 +63,8 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
         ..CopyObjectRequest::default()
     };
 
+    input.metadata = ctx.extract_metadata();
+
     let h = &ctx.headers;
     h.assign_str(X_AMZ_ACL, &mut input.acl);
     h.assign_str(CACHE_CONTROL, &mut input.cache_control);
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 7c4d1bd..4d69c90 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -408,7 +408,11 @@ impl S3Storage for FileSystem {
         self.check_bucket(&input.bucket)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
-        let (mut src_file, metadata) = self.open_object(bucket, key)?;
+        let (mut src_file, src_metadata) = self.open_object(bucket, key)?;
+        let metadata = match input.metadata_directive.as_deref() {
+            Some("REPLACE") => input.metadata,
+            _ => src_metadata,
+        };
 
         let file_metadata = trace_try!(src_file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-- 
2.43.0


From 640bf191eac659722a72901aa5dfa9c115d9acac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 14/61] fix: DeleteBucket answered an internal error for a
 missing bucket and left debris

Metadata files and multipart uploads of the deleted bucket stayed behind,
and a bucket was visible half-deleted.
---
 src/storages/fs.rs | 67 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 4d69c90..55b8802 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -95,15 +95,18 @@ impl FileSystem {
         Ok(())
     }
 
+    /// common prefix of the metadata file names of a bucket
+    fn get_metadata_prefix(bucket: &str) -> String {
+        let bucket = base64_simd::URL_SAFE_NO_PAD.encode_to_string(bucket);
+        format!(".bucket-{bucket}.object-")
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
-        let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
+        let prefix = Self::get_metadata_prefix(bucket);
+        let key = base64_simd::URL_SAFE_NO_PAD.encode_to_string(key);
 
-        let file_path_str = format!(
-            ".bucket-{}.object-{}.metadata.json",
-            encode(bucket),
-            encode(key),
-        );
+        let file_path_str = format!("{prefix}{key}.metadata.json");
         let file_path = Path::new(&file_path_str);
         let ans = file_path.absolutize_virtually(&self.root)?.into();
         Ok(ans)
@@ -254,6 +257,45 @@ impl FileSystem {
         Ok(())
     }
 
+    /// remove a bucket together with the metadata of its objects and its multipart uploads
+    ///
+    /// Returns the path its files have been moved to and the ids of its multipart uploads
+    fn remove_bucket(&self, bucket: &str) -> S3Result<(PathBuf, Vec<String>)> {
+        let path = trace_try!(self.get_bucket_path(bucket));
+        let trash_path = self.root.join(format!(".tmp-{}", Uuid::new_v4()));
+        let metadata_prefix = Self::get_metadata_prefix(bucket);
+        let mut upload_ids = Vec::new();
+
+        let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+
+        self.check_bucket(bucket)?;
+        trace_try!(std::fs::rename(&path, &trash_path));
+
+        for entry in trace_try!(std::fs::read_dir(&self.root)) {
+            let entry = trace_try!(entry);
+            let file_name = entry.file_name();
+            let file_name = file_name.to_string_lossy();
+
+            let upload_id = file_name
+                .strip_prefix(".upload_id-")
+                .and_then(|s| s.strip_suffix(".json"));
+
+            if file_name.starts_with(&metadata_prefix) {
+                trace_try!(remove_file_if_exists(&entry.path()));
+            } else if let Some(upload_id) = upload_id {
+                let info = std::fs::read(entry.path())
+                    .ok()
+                    .and_then(|content| serde_json::from_slice::<UploadInfo>(&content).ok());
+                if info.map_or(false, |info| info.bucket == bucket) {
+                    trace_try!(remove_file_if_exists(&entry.path()));
+                    upload_ids.push(upload_id.to_owned());
+                }
+            }
+        }
+
+        Ok((trash_path, upload_ids))
+    }
+
     /// get md5 sum of an open file, from its current position to its end
     async fn get_md5_sum(file: &mut File) -> io::Result<String> {
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
@@ -455,8 +497,17 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
-        let path = trace_try!(self.get_bucket_path(&input.bucket));
-        trace_try!(async_fs::remove_dir_all(path).await);
+        let (trash_path, upload_ids) = self.remove_bucket(&input.bucket)?;
+
+        if let Err(e) = async_fs::remove_dir_all(trash_path).await {
+            error!(error = %e, "DeleteBucket: remove files");
+        }
+        for upload_id in upload_ids {
+            if let Err(e) = self.remove_upload(&upload_id).await {
+                error!(error = %e, "DeleteBucket: remove parts");
+            }
+        }
+
         Ok(DeleteBucketOutput)
     }
 
-- 
2.43.0


From 2d7dfebdf0496da391fbf57f5e8b8be3698b146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 15/61] fix: DeleteObject of a missing key answered an internal
 error

Deleting is idempotent in S3: the answer is 204 whether or not the key
exists; a missing bucket is NoSuchBucket.
---
 src/storages/fs.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 55b8802..1830ce2 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -245,15 +245,27 @@ impl FileSystem {
         Ok(())
     }
 
-    /// remove an object together with its metadata
+    /// remove an object together with its metadata, if it exists
     fn remove_object(&self, bucket: &str, key: &str) -> S3Result<()> {
         let object_path = self.get_object_path(bucket, key)?;
         let metadata_path = trace_try!(self.get_metadata_path(bucket, key));
 
         let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
 
-        trace_try!(std::fs::remove_file(&object_path));
-        trace_try!(remove_file_if_exists(&metadata_path));
+        match std::fs::metadata(&object_path) {
+            Ok(m) if m.is_file() => {
+                trace_try!(std::fs::remove_file(&object_path));
+                trace_try!(remove_file_if_exists(&metadata_path));
+            }
+            Ok(_) if key.ends_with('/') => {
+                let is_empty = trace_try!(std::fs::read_dir(&object_path)).next().is_none();
+                if is_empty {
+                    trace_try!(std::fs::remove_dir(&object_path));
+                }
+            }
+            Err(e) if !is_absent(&e, &object_path) => trace_try!(Err(e)),
+            Ok(_) | Err(_) => {}
+        }
         Ok(())
     }
 
@@ -358,6 +370,18 @@ impl Drop for TempFile {
     }
 }
 
+/// whether an error on accessing `path` means that there is no such file
+fn is_absent(err: &io::Error, path: &Path) -> bool {
+    let is_dir_path = path.as_os_str().to_string_lossy().ends_with('/');
+    let mut parents = (path.components().as_path().ancestors()).skip(usize::from(!is_dir_path));
+
+    err.kind() == io::ErrorKind::NotFound
+        // a parent directory is an object
+        || parents.any(Path::is_file)
+        // longer than any file name
+        || path.iter().any(|name| name.len() > 255)
+}
+
 /// remove a file, which may not exist
 fn remove_file_if_exists(path: &Path) -> io::Result<()> {
     match std::fs::remove_file(path) {
@@ -516,16 +540,8 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = self.get_object_path(&input.bucket, &input.key)?;
-        if input.key.ends_with('/') {
-            let mut dir = trace_try!(async_fs::read_dir(&path).await);
-            let is_empty = dir.next().await.is_none();
-            if is_empty {
-                trace_try!(async_fs::remove_dir(&path).await);
-            }
-        } else {
-            self.remove_object(&input.bucket, &input.key)?;
-        }
+        self.check_bucket(&input.bucket)?;
+        self.remove_object(&input.bucket, &input.key)?;
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
-- 
2.43.0


From 7d3957b3acc5fc408537931681803ebd5f91a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 16/61] fix: DeleteObjects reported only some of the named keys

Absent keys were not reported, one failing key lost the report of those
already deleted, and quiet mode was ignored.
---
 src/storages/fs.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 1830ce2..389453f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -14,8 +14,8 @@ use crate::dto::{
     HeadBucketOutput, HeadBucketRequest, HeadObjectError, HeadObjectOutput, HeadObjectRequest,
     ListBucketsError, ListBucketsOutput, ListBucketsRequest, ListObjectsError, ListObjectsOutput,
     ListObjectsRequest, ListObjectsV2Error, ListObjectsV2Output, ListObjectsV2Request, Object,
-    PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
-    UploadPartRequest,
+    ObjectIdentifier, PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError,
+    UploadPartOutput, UploadPartRequest,
 };
 use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
@@ -551,24 +551,34 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectsRequest,
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
-        let mut objects: Vec<String> = Vec::new();
-        for object in input.delete.objects {
-            let path = self.get_object_path(&input.bucket, &object.key)?;
-            if path.exists() {
-                objects.push(object.key);
-            }
-        }
+        self.check_bucket(&input.bucket)?;
 
+        let is_quiet = input.delete.quiet.unwrap_or(false);
         let mut deleted: Vec<DeletedObject> = Vec::new();
-        for key in objects {
-            self.remove_object(&input.bucket, &key)?;
-            deleted.push(DeletedObject {
-                key: Some(key),
-                ..DeletedObject::default()
-            });
+        let mut errors: Vec<rusoto_s3::S3Error> = Vec::new();
+
+        for ObjectIdentifier { key, .. } in input.delete.objects {
+            match self.remove_object(&input.bucket, &key) {
+                Ok(()) if is_quiet => {}
+                Ok(()) => deleted.push(DeletedObject {
+                    key: Some(key),
+                    ..DeletedObject::default()
+                }),
+                Err(err) => {
+                    let err = err.into_xml_response();
+                    errors.push(rusoto_s3::S3Error {
+                        code: Some(err.code.as_static_str().to_owned()),
+                        key: Some(key),
+                        message: err.message,
+                        version_id: None,
+                    });
+                }
+            }
         }
+
         let output = DeleteObjectsOutput {
             deleted: Some(deleted),
+            errors: Some(errors),
             ..DeleteObjectsOutput::default()
         };
         Ok(output)
-- 
2.43.0


From 25ba0e7c124694b0c0a2cd8992a51b83d823178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 17/61] fix: a directory was served as an object

HEAD and GET of a key whose path is a directory answered 200 (HEAD) or an
internal error (GET). Only a key ending with '/' names a directory object, which is empty.
---
 src/storages/fs.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 389453f..35c5576 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -29,6 +29,7 @@ use std::env;
 use std::io::{self, SeekFrom};
 use std::path::{Component, Path, PathBuf};
 use std::sync::{Mutex, PoisonError};
+use std::time::Duration;
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
@@ -188,13 +189,18 @@ impl FileSystem {
 
         let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
 
+        let no_such_key = || code_error!(NoSuchKey, "The specified key does not exist.");
         let file = match std::fs::File::open(&path) {
             Ok(file) => file,
-            Err(e) => {
+            Err(e) if is_absent(&e, &path) => {
                 error!(error = %e, "open object");
-                return Err(code_error!(NoSuchKey, "The specified key does not exist."));
+                return Err(no_such_key());
             }
+            Err(e) => trace_try!(Err(e)),
         };
+        if trace_try!(file.metadata()).is_dir() != key.ends_with('/') {
+            return Err(no_such_key());
+        }
         let metadata = trace_try!(self.load_metadata(bucket, key));
         Ok((File::from(file), metadata))
     }
@@ -474,6 +480,10 @@ impl S3Storage for FileSystem {
         self.check_bucket(&input.bucket)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
+        if key.ends_with('/') || input.key.ends_with('/') {
+            return Err(not_supported!("Copying a directory object is not supported yet.").into());
+        }
+
         let (mut src_file, src_metadata) = self.open_object(bucket, key)?;
         let metadata = match input.metadata_directive.as_deref() {
             Some("REPLACE") => input.metadata,
@@ -619,9 +629,11 @@ impl S3Storage for FileSystem {
 
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
+        let is_dir = file_metadata.is_dir();
 
         let (start, content_length, content_range) = {
-            let file_len = file_metadata.len();
+            // a directory object has no content
+            let file_len = if is_dir { 0 } else { file_metadata.len() };
 
             let is_partial = range.is_some();
 
@@ -654,15 +666,22 @@ impl S3Storage for FileSystem {
             (start, content_length, content_range)
         };
 
-        let (md5_sum, duration) = {
+        let (md5_sum, duration) = if is_dir {
+            let md5_sum = Md5::new().finalize().apply(crypto::to_hex_string);
+            (md5_sum, Duration::default())
+        } else {
             // the body is read from the same file, even if the object is replaced meanwhile
             let (ret, duration) = time::count_duration(Self::get_md5_sum(&mut file)).await;
             let md5_sum = trace_try!(ret);
+            let _ = trace_try!(file.seek(SeekFrom::Start(start)).await);
             (md5_sum, duration)
         };
 
-        let _ = trace_try!(file.seek(SeekFrom::Start(start)).await);
-        let stream = BytesStream::new(file, 4096, Some(content_length));
+        let body = if is_dir {
+            crate::dto::ByteStream::from(Vec::new())
+        } else {
+            crate::dto::ByteStream::new(BytesStream::new(file, 4096, Some(content_length)))
+        };
 
         debug!(
             sum = ?md5_sum,
@@ -673,7 +692,7 @@ impl S3Storage for FileSystem {
         );
 
         let output: GetObjectOutput = GetObjectOutput {
-            body: Some(crate::dto::ByteStream::new(stream)),
+            body: Some(body),
             content_length: Some(trace_try!(content_length.try_into())),
             content_range,
             last_modified: Some(last_modified),
@@ -709,7 +728,11 @@ impl S3Storage for FileSystem {
 
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-        let size = file_metadata.len();
+        let size = if file_metadata.is_dir() {
+            0
+        } else {
+            file_metadata.len()
+        };
 
         let output: HeadObjectOutput = HeadObjectOutput {
             content_length: Some(trace_try!(size.try_into())),
-- 
2.43.0


From af12f95af536823077570cc9a63fc6e1fadd96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 18/61] fix: listing a missing bucket, or one being changed,
 answered an internal error

---
 src/storages/fs.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 35c5576..780ce59 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -759,7 +759,11 @@ impl S3Storage for FileSystem {
                 let file_name = entry.file_name();
                 let name = file_name.to_string_lossy();
                 if S3Path::check_bucket_name(&*name) {
-                    let file_meta = trace_try!(entry.metadata().await);
+                    let file_meta = match entry.metadata().await {
+                        // removed since it was found
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        ret => trace_try!(ret),
+                    };
                     let creation_date = trace_try!(file_meta.created());
                     buckets.push(Bucket {
                         creation_date: Some(time::to_rfc3339(creation_date)),
@@ -781,6 +785,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsRequest,
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
+        self.check_bucket(&input.bucket)?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
         let mut objects = Vec::new();
@@ -788,7 +793,11 @@ impl S3Storage for FileSystem {
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let mut entries = match async_fs::read_dir(dir).await {
+                // removed since it was found
+                Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                ret => trace_try!(ret),
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
@@ -803,7 +812,11 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match entry.metadata().await {
+                        // removed since it was found
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        ret => trace_try!(ret),
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = metadata.len();
 
@@ -847,6 +860,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsV2Request,
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
+        self.check_bucket(&input.bucket)?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
         let mut objects = Vec::new();
@@ -854,7 +868,11 @@ impl S3Storage for FileSystem {
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let mut entries = match async_fs::read_dir(dir).await {
+                // removed since it was found
+                Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                ret => trace_try!(ret),
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
@@ -869,7 +887,11 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match entry.metadata().await {
+                        // removed since it was found
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        ret => trace_try!(ret),
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = metadata.len();
 
-- 
2.43.0


From d13e0c2aff2d28c7a98d14a9b830e3252ae70306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 19/61] fix: objects with long keys could not have metadata

The encoded key made the name of the metadata file longer than a file name may be.
---
 src/storages/fs.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 780ce59..d37bc74 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -42,6 +42,9 @@ use uuid::Uuid;
 
 use async_fs::File;
 
+/// maximum length of a file name
+const MAX_FILE_NAME_LEN: usize = 255;
+
 /// A S3 storage implementation based on file system
 #[derive(Debug)]
 pub struct FileSystem {
@@ -105,9 +108,13 @@ impl FileSystem {
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let prefix = Self::get_metadata_prefix(bucket);
-        let key = base64_simd::URL_SAFE_NO_PAD.encode_to_string(key);
+        let encoded_key = base64_simd::URL_SAFE_NO_PAD.encode_to_string(key);
 
-        let file_path_str = format!("{prefix}{key}.metadata.json");
+        let mut file_path_str = format!("{prefix}{encoded_key}.metadata.json");
+        if file_path_str.len() > MAX_FILE_NAME_LEN {
+            let hash = crypto::hex_sha256(key.as_bytes());
+            file_path_str = format!("{prefix}.sha256-{hash}.metadata.json");
+        }
         let file_path = Path::new(&file_path_str);
         let ans = file_path.absolutize_virtually(&self.root)?.into();
         Ok(ans)
@@ -385,7 +392,7 @@ fn is_absent(err: &io::Error, path: &Path) -> bool {
         // a parent directory is an object
         || parents.any(Path::is_file)
         // longer than any file name
-        || path.iter().any(|name| name.len() > 255)
+        || path.iter().any(|name| name.len() > MAX_FILE_NAME_LEN)
 }
 
 /// remove a file, which may not exist
-- 
2.43.0


From a95f16a6413c0cfacf880774b89fac9b08873882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 20/61] fix: concurrent CreateBucket requests answered internal
 errors

---
 src/storages/fs.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index d37bc74..9f7b89c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -452,17 +452,19 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if path.exists() {
-            let err = CreateBucketError::BucketAlreadyExists(String::from(
-                "The requested bucket name is not available. \
-                    The bucket namespace is shared by all users of the system. \
-                    Please select a different name and try again.",
-            ));
-            return Err(operation_error(err));
+        // one of any number of concurrent requests creates the bucket
+        match async_fs::create_dir(&path).await {
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
+                let err = CreateBucketError::BucketAlreadyExists(String::from(
+                    "The requested bucket name is not available. \
+                        The bucket namespace is shared by all users of the system. \
+                        Please select a different name and try again.",
+                ));
+                return Err(operation_error(err));
+            }
+            ret => trace_try!(ret),
         }
 
-        trace_try!(async_fs::create_dir(&path).await);
-
         let output = CreateBucketOutput::default(); // TODO: handle other fields
         Ok(output)
     }
-- 
2.43.0


From 5f7e3e559b6165dae6b83ee755f7e67c1e26fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 21/61] fix: Content-MD5 was not verified

---
 src/ops/put_object.rs |  3 +++
 src/storages/fs.rs    | 26 ++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 32b7ef5..a82388b 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -81,6 +81,9 @@ fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart
     }
     // TODO: how to handle the other fields?
 
+    // this header is about the form
+    input.content_md5 = None;
+
     let file_stream = multipart.file.stream;
 
     input.body = file_stream.apply(transform_file_stream).apply(Some);
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 9f7b89c..ae3f9d0 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -438,6 +438,28 @@ where
     Ok(nwrite)
 }
 
+/// check the content of a request against the digest given by the client (if any)
+fn check_content_md5(content_md5: Option<&str>, md5_sum: &str) -> S3Result<()> {
+    if let Some(content_md5) = content_md5 {
+        let digest = base64_simd::STANDARD
+            .decode_to_vec(content_md5.as_bytes())
+            .unwrap_or_default();
+        if digest.len() != Md5::output_size() {
+            return Err(code_error!(
+                InvalidDigest,
+                "The Content-MD5 you specified is not valid."
+            ));
+        }
+        if crypto::to_hex_string(digest) != md5_sum {
+            return Err(code_error!(
+                BadDigest,
+                "The Content-MD5 you specified did not match what we received."
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -963,6 +985,7 @@ impl S3Storage for FileSystem {
             key,
             metadata,
             content_length,
+            content_md5,
             ..
         } = input;
 
@@ -998,6 +1021,7 @@ impl S3Storage for FileSystem {
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
         drop(writer);
+        check_content_md5(content_md5.as_deref(), &md5_sum)?;
         self.commit_object(temp_file, &bucket, &key, metadata.as_ref(), None)?;
 
         debug!(
@@ -1059,6 +1083,7 @@ impl S3Storage for FileSystem {
             key,
             upload_id,
             part_number,
+            content_md5,
             ..
         } = input;
 
@@ -1087,6 +1112,7 @@ impl S3Storage for FileSystem {
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
         drop(writer);
+        check_content_md5(content_md5.as_deref(), &md5_sum)?;
         {
             let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
             let _info = self.check_upload(&bucket, &key, &upload_id)?;
-- 
2.43.0


From a91da657979572c687fd577a20f7569b8506b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 22/61] fix: signed requests for paths with percent-encoded
 characters were refused

The canonical URI is the encoding of the decoded path, but the encoded path was encoded again.
---
 src/service.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 30d5ec0..d873c02 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -415,13 +415,14 @@ async fn check_presigned_url(
         fetch_secret_key(auth_provider, presigned_url.credential.access_key_id).await?;
 
     let signature = {
+        let uri_path = decode_uri_path(ctx.req)?;
         let headers = ctx
             .headers
             .map_signed_headers(&presigned_url.signed_headers);
 
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
-            ctx.req.uri().path(),
+            &uri_path,
             qs.as_ref(),
             &headers,
         );
@@ -474,7 +475,7 @@ async fn check_header_auth(
 
     let signature = {
         let method = ctx.req.method();
-        let uri_path = ctx.req.uri().path();
+        let uri_path = decode_uri_path(ctx.req)?;
         let query_strings: &[(String, String)] =
             ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
 
@@ -486,7 +487,7 @@ async fn check_header_auth(
         let canonical_request = if is_stream {
             signature_v4::create_canonical_request(
                 method,
-                uri_path,
+                &uri_path,
                 query_strings,
                 &headers,
                 signature_v4::Payload::MultipleChunks,
@@ -507,7 +508,7 @@ async fn check_header_auth(
 
             let ans = signature_v4::create_canonical_request(
                 method,
-                uri_path,
+                &uri_path,
                 query_strings,
                 &headers,
                 payload,
-- 
2.43.0


From 80523ad5456e71bb2c0ed404e459f2d708d165ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 23/61] fix: signed requests with some headers were refused

Repeated headers, values with runs of spaces, a signed user-agent and unsorted
X-Amz-SignedHeaders did not yield the canonical request the client had signed.
---
 src/data_structures/ordered_headers.rs |  3 ++-
 src/service.rs                         |  3 ++-
 src/signature_v4.rs                    | 30 ++++++++++++++++++++------
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index 3ec6cb0..3959b93 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -35,7 +35,8 @@ impl<'a> OrderedHeaders<'a> {
         for (name, value) in req.headers().iter() {
             headers.push((name.as_str(), value.to_str()?));
         }
-        headers.sort_unstable();
+        // the values of a header stay in the order they were sent
+        headers.sort_by_key(|&(name, _)| name);
 
         Ok(Self { headers })
     }
diff --git a/src/service.rs b/src/service.rs
index d873c02..f624049 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -396,8 +396,9 @@ async fn check_presigned_url(
         .as_ref()
         .unwrap_or_else(|| panic!("missing query string"));
 
-    let presigned_url = signature_v4::PresignedUrl::from_query(qs)
+    let mut presigned_url = signature_v4::PresignedUrl::from_query(qs)
         .map_err(|err| invalid_request!("Missing presigned fields", err))?;
+    presigned_url.signed_headers.sort_unstable();
 
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index df3f8c8..d52d3ba 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -153,7 +153,23 @@ fn uri_encode(output: &mut String, input: &str, encode_slash: bool) {
 
 /// is skipped header
 fn is_skipped_header(header: &str) -> bool {
-    ["authorization", "user-agent"].contains(&header)
+    header == "authorization"
+}
+
+/// join the values of each header, which must be sorted by name
+fn canonicalize_headers<'a>(headers: &OrderedHeaders<'a>) -> Vec<(&'a str, String)> {
+    let mut ans: Vec<(&'a str, String)> = Vec::with_capacity(headers.as_ref().len());
+    for &(name, value) in headers.as_ref() {
+        let value = value.split_whitespace().collect::<Vec<&str>>().join(" ");
+        match ans.last_mut() {
+            Some(&mut (last_name, ref mut last_value)) if last_name == name => {
+                last_value.push(',');
+                last_value.push_str(&value);
+            }
+            _ => ans.push((name, value)),
+        }
+    }
+    ans
 }
 
 /// is skipped query string
@@ -233,13 +249,13 @@ pub fn create_canonical_request(
 
             // FIXME: check HOST, Content-Type, x-amz-security-token, x-amz-content-sha256
 
-            for &(name, value) in headers.as_ref().iter() {
+            for (name, value) in canonicalize_headers(headers) {
                 if is_skipped_header(name) {
                     continue;
                 }
                 ans.push_str(name);
                 ans.push(':');
-                ans.push_str(value.trim());
+                ans.push_str(&value);
                 ans.push('\n');
             }
             ans.push('\n');
@@ -247,7 +263,7 @@ pub fn create_canonical_request(
         .also(|ans| {
             // <SignedHeaders>\n
             let mut first_flag = true;
-            for &(name, _) in headers.as_ref().iter() {
+            for (name, _) in canonicalize_headers(headers) {
                 if is_skipped_header(name) {
                     continue;
                 }
@@ -422,13 +438,13 @@ pub fn create_presigned_canonical_request(
 
             // FIXME: check HOST, Content-Type, x-amz-security-token, x-amz-content-sha256
 
-            for &(name, value) in headers.as_ref().iter() {
+            for (name, value) in canonicalize_headers(headers) {
                 if is_skipped_header(name) {
                     continue;
                 }
                 ans.push_str(name);
                 ans.push(':');
-                ans.push_str(value.trim());
+                ans.push_str(&value);
                 ans.push('\n');
             }
             ans.push('\n');
@@ -436,7 +452,7 @@ pub fn create_presigned_canonical_request(
         .also(|ans| {
             // <SignedHeaders>\n
             let mut first_flag = true;
-            for &(name, _) in headers.as_ref().iter() {
+            for (name, _) in canonicalize_headers(headers) {
                 if is_skipped_header(name) {
                     continue;
                 }
-- 
2.43.0


From 92fb61117536f4372a0cb20e64b73659bc035c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 24/61] fix: presigned urls were honoured after they had
 expired

---
 src/headers/amz_date.rs | 19 +++++++++++++++++++
 src/service.rs          | 31 +++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/src/headers/amz_date.rs b/src/headers/amz_date.rs
index 71069ec..c2d5a54 100644
--- a/src/headers/amz_date.rs
+++ b/src/headers/amz_date.rs
@@ -1,5 +1,9 @@
 //! x-amz-date
 
+use std::convert::TryInto;
+
+use chrono::{DateTime, TimeZone, Utc};
+
 /// x-amz-date
 #[derive(Debug, Clone, Copy)]
 pub struct AmzDate {
@@ -89,6 +93,21 @@ impl AmzDate {
         }
     }
 
+    /// Converts to a point of time
+    ///
+    /// Returns `None` if there is no such date or time
+    pub(crate) fn to_datetime(&self) -> Option<DateTime<Utc>> {
+        Utc.with_ymd_and_hms(
+            self.year.try_into().ok()?,
+            self.month,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+        )
+        .single()
+    }
+
     /// `YYYYMMDD'T'HHMMSS'Z'`
     #[must_use]
     pub fn to_iso8601(&self) -> String {
diff --git a/src/service.rs b/src/service.rs
index f624049..0ce22d4 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -400,6 +400,8 @@ async fn check_presigned_url(
         .map_err(|err| invalid_request!("Missing presigned fields", err))?;
     presigned_url.signed_headers.sort_unstable();
 
+    check_presigned_period(&presigned_url)?;
+
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
 
@@ -443,6 +445,35 @@ async fn check_presigned_url(
     Ok(())
 }
 
+/// check that a presigned url is used within its validity period
+fn check_presigned_period(presigned_url: &signature_v4::PresignedUrl<'_>) -> S3Result<()> {
+    /// the longest validity period in seconds
+    const MAX_EXPIRES: u32 = 604_800;
+
+    /// how far in seconds the clock of the signer may be ahead
+    const MAX_CLOCK_SKEW: i64 = 900;
+
+    let signed_at = presigned_url
+        .amz_date
+        .to_datetime()
+        .ok_or_else(|| invalid_request!("Invalid query: X-Amz-Date"))?;
+
+    if presigned_url.expires > MAX_EXPIRES {
+        return Err(invalid_request!(
+            "X-Amz-Expires must be less than a week (in seconds)."
+        ));
+    }
+
+    let elapsed = chrono::Utc::now().signed_duration_since(signed_at);
+    if elapsed > chrono::Duration::seconds(presigned_url.expires.into()) {
+        return Err(code_error!(AccessDenied, "Request has expired"));
+    }
+    if elapsed < chrono::Duration::seconds(MAX_CLOCK_SKEW.wrapping_neg()) {
+        return Err(code_error!(AccessDenied, "Request is not yet valid"));
+    }
+    Ok(())
+}
+
 /// check header auth (v4)
 async fn check_header_auth(
     ctx: &mut ReqContext<'_>,
-- 
2.43.0


From f7cec2be7812e95b836c018f96bd77117e3228fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 25/61] fix: headers added to a signed request were obeyed

Any x-amz-* header which is not among the signed headers could be added after signing.
---
 src/service.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 0ce22d4..eae3b76 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -386,6 +386,23 @@ async fn check_post_signature(
     Ok(())
 }
 
+/// check that the `x-amz-*` headers of a request, which may change its meaning, are signed
+///
+/// + Signed headers must be sorted
+fn check_signed_headers(headers: &OrderedHeaders<'_>, signed_headers: &[&str]) -> S3Result<()> {
+    for &(name, _) in headers.as_ref() {
+        // a request body is either covered by the signature or explicitly unsigned
+        let is_required = name.starts_with("x-amz-") && name != X_AMZ_CONTENT_SHA256.as_str();
+        if is_required && signed_headers.binary_search(&name).is_err() {
+            return Err(code_error!(
+                AccessDenied,
+                "There were headers present in the request which were not signed"
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// check presigned url (v4)
 async fn check_presigned_url(
     ctx: &mut ReqContext<'_>,
@@ -401,6 +418,7 @@ async fn check_presigned_url(
     presigned_url.signed_headers.sort_unstable();
 
     check_presigned_period(&presigned_url)?;
+    check_signed_headers(&ctx.headers, &presigned_url.signed_headers)?;
 
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
@@ -494,6 +512,8 @@ async fn check_header_auth(
     let auth_provider =
         auth.ok_or_else(|| not_supported!("The service has no authentication provider."))?;
 
+    check_signed_headers(&ctx.headers, &authorization.signed_headers)?;
+
     let amz_content_sha256 = extract_amz_content_sha256(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-content-sha256"))?;
 
-- 
2.43.0


From 6803a5c55d84cc752abe551959cba60ed1bed528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 26/61] fix: the date and service of the claimed credential
 scope were ignored

---
 src/service.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index eae3b76..0f3220a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -293,6 +293,14 @@ async fn fetch_secret_key(auth: &(dyn S3Auth + Send + Sync), access_key: &str) -
     }
 }
 
+/// check that the credential scope is the one the signature is calculated for
+fn check_credential_scope(credential: &CredentialV4<'_>, amz_date: &AmzDate) -> S3Result<()> {
+    if credential.date != amz_date.to_date() || credential.aws_service != "s3" {
+        return Err(signature_mismatch!());
+    }
+    Ok(())
+}
+
 /// check post signature (v4)
 async fn check_post_signature(
     ctx: &mut ReqContext<'_>,
@@ -362,6 +370,8 @@ async fn check_post_signature(
         let amz_date = AmzDate::from_header_str(x_amz_date)
             .map_err(|err| invalid_request!("Invalid field: x-amz-date", err))?;
 
+        check_credential_scope(&credential, &amz_date)?;
+
         // fetch secret_key
         let secret_key = fetch_secret_key(auth_provider, credential.access_key_id).await?;
 
@@ -435,6 +445,8 @@ async fn check_presigned_url(
     let secret_key =
         fetch_secret_key(auth_provider, presigned_url.credential.access_key_id).await?;
 
+    check_credential_scope(&presigned_url.credential, &presigned_url.amz_date)?;
+
     let signature = {
         let uri_path = decode_uri_path(ctx.req)?;
         let headers = ctx
@@ -523,6 +535,8 @@ async fn check_header_auth(
     let amz_date = extract_amz_date(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-date"))?;
 
+    check_credential_scope(&authorization.credential, &amz_date)?;
+
     let is_stream = matches!(amz_content_sha256, AmzContentSha256::MultipleChunks);
 
     let signature = {
-- 
2.43.0


From 4c9852d1ee026e305c1037141f64884aeec0f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 27/61] fix: truncated aws-chunked uploads were stored

The end of the body was taken for the end of the payload without the signed final chunk.
---
 src/streams/aws_chunked_stream.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index c2d3215..3e3f5de 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -155,7 +155,8 @@ impl AwsChunkedStream {
                                 match Self::read_meta_bytes(body.as_mut(), prev_bytes, &mut buf)
                                     .await
                                 {
-                                    None => break,
+                                    // the final chunk has not been received
+                                    None => return Err(AwsChunkedStreamError::Incomplete),
                                     Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
@@ -182,12 +183,22 @@ impl AwsChunkedStream {
                                 Some(signature) => ctx.prev_signature = signature,
                             }
 
+                            // nothing may follow the final chunk
+                            if meta.size == 0 {
+                                while prev_bytes.is_empty() {
+                                    match body.next().await {
+                                        None => return Ok(()),
+                                        Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
+                                        Some(Ok(bytes)) => prev_bytes = bytes,
+                                    }
+                                }
+                                return Err(AwsChunkedStreamError::FormatError);
+                            }
+
                             for bytes in data {
                                 y.yield_ok(bytes).await;
                             }
                         }
-
-                        Ok(())
                     })
                 },
             );
-- 
2.43.0


From ff4ac547c3cc661e5b85ac0d3b2ea1c1901b8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 28/61] fix: malformed aws-chunked chunk sizes were accepted

---
 src/streams/aws_chunked_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index 3e3f5de..4666e42 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -95,7 +95,7 @@ fn parse_chunk_meta(mut input: &[u8]) -> nom::IResult<&[u8], ChunkMeta<'_>> {
         (size_str, signature)
     });
 
-    let (_, size) = map_res(hex_u32, TryInto::try_into)(size_str)?;
+    let (_, size) = all_consuming(map_res(hex_u32, TryInto::try_into))(size_str)?;
 
     Ok((input, ChunkMeta { size, signature }))
 }
-- 
2.43.0


From 14d77160ee52e0daa77310489518e75b04c25ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 29/61] fix: a form was refused if its first boundary was split
 by the transport

---
 src/streams/multipart.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8f1bed3..122f033 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -389,11 +389,8 @@ impl<'a> CrlfLines<'a> {
                 return Some(left);
             }
         }
-        if self.slice.is_empty() {
-            None
-        } else {
-            Some(mem::take(&mut self.slice))
-        }
+        // the rest of the line has not been received
+        None
     }
 
     /// split by pattern and return previous bytes
-- 
2.43.0


From 9837e67d69351bb8be4af34420af4c156c96d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 30/61] fix: forms with other part headers than the usual ones
 were refused

A file part without Content-Type, or any part with more than two headers.
---
 src/streams/multipart.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 122f033..e757c9b 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -152,7 +152,7 @@ where
         }
     };
 
-    let mut headers = [httparse::EMPTY_HEADER; 2];
+    let mut headers = [httparse::EMPTY_HEADER; 16];
     loop {
         let (idx, parsed_headers) = match httparse::parse_headers(lines.slice, &mut headers) {
             Ok(httparse::Status::Complete(ans)) => ans,
@@ -197,7 +197,8 @@ where
             }
             Some(filename) => {
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
-                    None => return Err((body, pat)),
+                    // the default of RFC 7578
+                    None => "text/plain",
                     Some(Err(_)) => return Ok(Err(generate_format_error())),
                     Some(Ok(s)) => s,
                 };
-- 
2.43.0


From e9a49ff02e6279501e0e7d20e1a3cb85027764ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 31/61] fix: form metadata which is no valid header made the
 object unreadable

---
 src/ops/put_object.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index a82388b..af5a461 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -26,6 +26,8 @@ use crate::{async_trait, Method, Response};
 use std::collections::HashMap;
 use std::mem;
 
+use hyper::header::{HeaderName, HeaderValue};
+
 /// `PutObject` handler
 pub struct Handler;
 
@@ -72,6 +74,11 @@ fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart
         if name.starts_with(meta_prefix) {
             let (_, meta_key) = name.split_at(meta_prefix.len());
             if !meta_key.is_empty() {
+                // it will be served as a header
+                let _name = HeaderName::from_bytes(name.as_bytes())
+                    .map_err(|err| invalid_request!("Invalid field: x-amz-meta-*", err))?;
+                let _value = HeaderValue::from_bytes(value.as_bytes())
+                    .map_err(|err| invalid_request!("Invalid field: x-amz-meta-*", err))?;
                 let _prev = metadata.insert(meta_key.to_owned(), mem::take(value));
             }
         }
-- 
2.43.0


From b13c0ead99dde2ca25f683fc467a25f1fd0fba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 32/61] fix: requests for unsupported operations were executed
 as other operations

DELETE /bucket?policy deleted the bucket, PUT /bucket/key?acl replaced the object,
DELETE ?uploadId deleted the object, UploadPartCopy overwrote the object, and so on.
---
 src/service.rs | 63 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 0f3220a..8a46efb 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -4,7 +4,9 @@ use crate::auth::S3Auth;
 use crate::data_structures::{OrderedHeaders, OrderedQs};
 use crate::errors::{S3AuthError, S3ErrorCode, S3Result};
 use crate::headers::{AmzContentSha256, AmzDate, AuthorizationV4, CredentialV4};
-use crate::headers::{AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_DATE};
+use crate::headers::{
+    AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_COPY_SOURCE, X_AMZ_DATE,
+};
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
@@ -169,6 +171,10 @@ impl S3Service {
             ));
         }
 
+        if is_unsupported(&ctx) {
+            return Err(not_supported!("The operation is not supported yet."));
+        }
+
         for handler in &self.handlers {
             if handler.is_match(&ctx) {
                 return handler.handle(&mut ctx, &*self.storage).await;
@@ -179,6 +185,61 @@ impl S3Service {
     }
 }
 
+/// whether a request is about a part of the API which no handler provides
+///
+/// It must not be mistaken for the operation with the same method and path
+fn is_unsupported(ctx: &ReqContext<'_>) -> bool {
+    /// sub-resources without any operation
+    const SUB_RESOURCES: [&str; 30] = [
+        "accelerate",
+        "acl",
+        "analytics",
+        "attributes",
+        "cors",
+        "encryption",
+        "intelligent-tiering",
+        "inventory",
+        "legal-hold",
+        "lifecycle",
+        "logging",
+        "metadataTable",
+        "metrics",
+        "notification",
+        "object-lock",
+        "ownershipControls",
+        "policy",
+        "policyStatus",
+        "publicAccessBlock",
+        "replication",
+        "requestPayment",
+        "restore",
+        "retention",
+        "select",
+        "session",
+        "tagging",
+        "torrent",
+        "versioning",
+        "versions",
+        "website",
+    ];
+
+    let qs = match ctx.query_strings {
+        None => return false,
+        Some(ref qs) => qs,
+    };
+    let has = |name: &str| qs.get(name).is_some();
+    let is_method = |method: Method| *ctx.req.method() == method;
+    let is_upload_part =
+        is_method(Method::PUT) && has("partNumber") && ctx.headers.get(X_AMZ_COPY_SOURCE).is_none();
+
+    SUB_RESOURCES.iter().copied().any(has)
+        || (has("delete") && !(is_method(Method::POST) && ctx.path.is_bucket()))
+        || (has("location") && !(is_method(Method::GET) && ctx.path.is_bucket()))
+        || (has("uploads") && !(is_method(Method::POST) && ctx.path.is_object()))
+        || (has("uploadId")
+            && !((is_method(Method::POST) || is_upload_part) && ctx.path.is_object()))
+}
+
 /// Extract urlencoded URI from Request
 fn decode_uri_path(req: &Request) -> S3Result<Cow<'_, str>> {
     urlencoding::decode(req.uri().path())
-- 
2.43.0


From bc0620bf2e8fe5b26e31a5d89381eb5f7373d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 33/61] fix: POST policies were not enforced

The signature of the policy document was checked, but not its expiration nor its conditions.
---
 src/lib.rs               |   1 +
 src/ops/put_object.rs    |  66 ++++++++++++++++++++-
 src/post_policy.rs       | 122 +++++++++++++++++++++++++++++++++++++++
 src/service.rs           |  10 +++-
 src/streams/multipart.rs |   3 +
 5 files changed, 199 insertions(+), 3 deletions(-)
 create mode 100644 src/post_policy.rs

diff --git a/src/lib.rs b/src/lib.rs
index e3ad9db..bb14fd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -130,6 +130,7 @@ pub(crate) mod utils;
 mod data_structures;
 mod ops;
 mod output;
+mod post_policy;
 mod signature_v4;
 mod streams;
 
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index af5a461..3e1b347 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -2,7 +2,7 @@
 
 use super::{wrap_internal_error, ReqContext, S3Handler};
 
-use crate::dto::{PutObjectError, PutObjectOutput, PutObjectRequest};
+use crate::dto::{ByteStream, PutObjectError, PutObjectOutput, PutObjectRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_LENGTH,
@@ -24,8 +24,14 @@ use crate::utils::{Apply, ResponseExt};
 use crate::{async_trait, Method, Response};
 
 use std::collections::HashMap;
+use std::convert::TryInto;
+use std::io;
 use std::mem;
+use std::sync::{Arc, Mutex, PoisonError};
 
+use futures::future;
+use futures::stream::{self, Stream, StreamExt};
+use hyper::body::Bytes;
 use hyper::header::{HeaderName, HeaderValue};
 
 /// `PutObject` handler
@@ -53,12 +59,68 @@ impl S3Handler for Handler {
         ctx: &mut ReqContext<'_>,
         storage: &(dyn S3Storage + Send + Sync),
     ) -> S3Result<Response> {
-        let input = extract(ctx)?;
+        let length_range = ctx.multipart.as_ref().map(|m| m.file.length_range);
+        let mut input = extract(ctx)?;
+
+        // the length of the file of a form is known at its end
+        let length_error: Arc<Mutex<Option<S3Error>>> = Arc::default();
+        if let Some(range) = length_range {
+            input.body = input
+                .body
+                .map(|body| ByteStream::new(limit_length(body, range, Arc::clone(&length_error))));
+        }
+
         let output = storage.put_object(input).await;
+        let length_error = length_error
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner)
+            .take();
+        if let Some(err) = length_error {
+            return Err(err);
+        }
         output.try_into_response()
     }
 }
 
+/// fail a stream whose length is out of the (inclusive) range
+fn limit_length(
+    body: ByteStream,
+    (min, max): (u64, u64),
+    length_error: Arc<Mutex<Option<S3Error>>>,
+) -> impl Stream<Item = io::Result<Bytes>> + Send + 'static {
+    let fail = move |err: S3Error| {
+        let io_err = io::Error::new(io::ErrorKind::Other, err.to_string());
+        *length_error.lock().unwrap_or_else(PoisonError::into_inner) = Some(err);
+        io_err
+    };
+
+    let mut len: u64 = 0;
+    body.map(Some)
+        .chain(stream::once(future::ready(None)))
+        .filter_map(move |item| {
+            future::ready(match item {
+                Some(Ok(bytes)) => {
+                    len = len.saturating_add(bytes.len().try_into().unwrap_or(u64::MAX));
+                    Some(if len > max {
+                        Err(fail(code_error!(
+                            EntityTooLarge,
+                            "Your proposed upload exceeds the maximum allowed size"
+                        )))
+                    } else {
+                        Ok(bytes)
+                    })
+                }
+                Some(Err(err)) => Some(Err(err)),
+                None => (len < min).then(|| {
+                    Err(fail(code_error!(
+                        EntityTooSmall,
+                        "Your proposed upload is smaller than the minimum allowed size"
+                    )))
+                }),
+            })
+        })
+}
+
 /// extract from multipart
 fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart) -> S3Result<()> {
     multipart.assign_str("acl", &mut input.acl);
diff --git a/src/post_policy.rs b/src/post_policy.rs
new file mode 100644
index 0000000..25b0865
--- /dev/null
+++ b/src/post_policy.rs
@@ -0,0 +1,122 @@
+//! POST policy
+//!
+//! See <https://docs.aws.amazon.com/AmazonS3/latest/API/sigv4-HTTPPOSTConstructPolicy.html>
+
+use crate::errors::S3Result;
+use crate::streams::multipart::Multipart;
+
+use chrono::{DateTime, Utc};
+use serde::Deserialize;
+use serde_json::Value;
+
+/// A signed policy document
+#[derive(Debug, Deserialize)]
+struct PolicyDocument {
+    /// the policy can not be used any more after this moment
+    expiration: String,
+    /// what a form must satisfy
+    conditions: Vec<Value>,
+}
+
+/// A condition of a policy
+enum Condition<'a> {
+    /// the field has exactly the value
+    Eq(&'a str, &'a str),
+    /// the field starts with the value
+    StartsWith(&'a str, &'a str),
+    /// the length of the file lies in the (inclusive) range
+    ContentLengthRange(u64, u64),
+}
+
+impl<'a> Condition<'a> {
+    /// Parses a condition
+    fn parse(value: &'a Value) -> Option<Vec<Self>> {
+        match *value {
+            Value::Object(ref map) => map
+                .iter()
+                .map(|(name, value)| Some(Condition::Eq(name, value.as_str()?)))
+                .collect(),
+            Value::Array(ref list) => match *list.as_slice() {
+                [Value::String(ref op), Value::String(ref name), Value::String(ref value)] => {
+                    let name = name.strip_prefix('$')?;
+                    match op.to_ascii_lowercase().as_str() {
+                        "eq" => Some(vec![Condition::Eq(name, value)]),
+                        "starts-with" => Some(vec![Condition::StartsWith(name, value)]),
+                        _ => None,
+                    }
+                }
+                [Value::String(ref op), ref min, ref max]
+                    if op.eq_ignore_ascii_case("content-length-range") =>
+                {
+                    let to_u64 = |v: &Value| v.as_u64().or_else(|| v.as_str()?.parse().ok());
+                    Some(vec![Condition::ContentLengthRange(
+                        to_u64(min)?,
+                        to_u64(max)?,
+                    )])
+                }
+                _ => None,
+            },
+            _ => None,
+        }
+    }
+}
+
+/// check a form against its (base64 encoded) policy document
+///
+/// Returns the permitted range of the length of the file
+pub fn check_policy(policy: &str, bucket: &str, form: &Multipart) -> S3Result<(u64, u64)> {
+    let invalid_document = || {
+        code_error!(InvalidPolicyDocument, "The content of the form does not meet the conditions specified in the policy document.")
+    };
+    let violation = || {
+        code_error!(
+            AccessDenied,
+            "Invalid according to Policy: Policy Condition failed"
+        )
+    };
+
+    let document = base64_simd::STANDARD
+        .decode_to_vec(policy.as_bytes())
+        .map_err(|_err| invalid_document())?;
+    let document: PolicyDocument =
+        serde_json::from_slice(&document).map_err(|_err| invalid_document())?;
+
+    let expiration =
+        DateTime::parse_from_rfc3339(&document.expiration).map_err(|_err| invalid_document())?;
+    if expiration < Utc::now() {
+        return Err(code_error!(
+            AccessDenied,
+            "Invalid according to Policy: Policy expired."
+        ));
+    }
+
+    let find_value = |name: &str| {
+        if name.eq_ignore_ascii_case("bucket") {
+            return Some(bucket);
+        }
+        form.find_field_value(name)
+    };
+
+    let (mut min_len, mut max_len) = (0, u64::MAX);
+    for value in &document.conditions {
+        for condition in Condition::parse(value).ok_or_else(invalid_document)? {
+            match condition {
+                Condition::Eq(name, expected) => {
+                    if find_value(name) != Some(expected) {
+                        return Err(violation());
+                    }
+                }
+                Condition::StartsWith(name, prefix) => {
+                    if !find_value(name).map_or(false, |v| v.starts_with(prefix)) {
+                        return Err(violation());
+                    }
+                }
+                Condition::ContentLengthRange(min, max) => {
+                    min_len = min.max(min_len);
+                    max_len = max.min(max_len);
+                }
+            }
+        }
+    }
+    Ok((min_len, max_len))
+}
diff --git a/src/service.rs b/src/service.rs
index 8a46efb..7d67e68 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -10,6 +10,7 @@ use crate::headers::{
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
+use crate::post_policy;
 use crate::signature_v4;
 use crate::storage::S3Storage;
 use crate::streams::aws_chunked_stream::AwsChunkedStream;
@@ -400,7 +401,7 @@ async fn check_post_signature(
 
     let body = take_io_body(&mut ctx.body);
 
-    let multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
+    let mut multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
         .await
         .map_err(|err| invalid_request!("Invalid multipart/form-data body", err))?;
     {
@@ -451,6 +452,13 @@ async fn check_post_signature(
         }
     }
 
+    // check the conditions of the policy
+    if let S3Path::Bucket { bucket } = ctx.path {
+        let policy = multipart.find_field_value("policy").unwrap_or_default();
+        let length_range = post_policy::check_policy(policy, bucket, &multipart)?;
+        multipart.file.length_range = length_range;
+    }
+
     // store ctx value
     ctx.multipart = Some(multipart);
 
diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index e757c9b..b39db78 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -25,6 +25,8 @@ pub struct File {
     pub content_type: String,
     /// stream
     pub stream: FileStream,
+    /// permitted range of the length
+    pub length_range: (u64, u64),
 }
 
 /// multipart/form-data for POST Object
@@ -212,6 +214,7 @@ where
                     name: filename.to_owned(),
                     content_type: content_type.to_owned(),
                     stream: file_stream,
+                    length_range: (0, u64::MAX),
                 };
 
                 return Ok(Ok(Multipart {
-- 
2.43.0


From 9d36077afc3c11069a1da94af669488f04c580f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 34/61] fix: the result of CreateMultipartUpload had the wrong
 element name

---
 src/ops/create_multipart_upload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 65c6c11..ed85ddc 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -82,7 +82,7 @@ impl S3Output for CreateMultipartUploadOutput {
             let upload_id = self.upload_id;
 
             res.set_xml_body(256, |w| {
-                w.stack("InitialMultipartUploadResult", |w| {
+                w.stack("InitiateMultipartUploadResult", |w| {
                     w.opt_element("Bucket", bucket)?;
                     w.opt_element("Key", key)?;
                     w.opt_element("UploadId", upload_id)?;
-- 
2.43.0


From 4a483511fa5362cc752328abe397f04e76b7bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 35/61] fix: all common prefixes of a listing were put into one
 element

---
 src/ops/list_objects.rs    | 12 +++++++-----
 src/ops/list_objects_v2.rs | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index 6e9cbc8..c72808a 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -88,11 +88,13 @@ impl S3Output for ListObjectsOutput {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
-                        w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                    if let Some(common_prefixes) = self.common_prefixes {
+                        w.iter_element(common_prefixes.into_iter(), |w, common_prefix| {
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     Ok(())
                 })
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index c7609dc..5a6ddad 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -94,11 +94,13 @@ impl S3Output for ListObjectsV2Output {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
-                        w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                    if let Some(common_prefixes) = self.common_prefixes {
+                        w.iter_element(common_prefixes.into_iter(), |w, common_prefix| {
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     w.opt_element("KeyCount", self.key_count.map(|k| k.to_string()))?;
                     w.opt_element("ContinuationToken", self.continuation_token)?;
-- 
2.43.0


From 96a387ce71978269ee5263f3a92c8d86152adea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 36/61] fix: CompleteMultipartUpload refused every request with
 parts

---
 src/ops/complete_multipart_upload.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 7008694..d12b4d4 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -113,8 +113,8 @@ mod xml {
     /// `CompletedMultipartUpload`
     pub struct CompletedMultipartUpload {
         /// Part
-        #[serde(rename = "Part")]
-        parts: Option<Vec<CompletedPart>>,
+        #[serde(rename = "Part", default)]
+        parts: Vec<CompletedPart>,
     }
 
     /// `CompletedPart`
@@ -131,7 +131,7 @@ mod xml {
     impl From<CompletedMultipartUpload> for super::CompletedMultipartUpload {
         fn from(m: CompletedMultipartUpload) -> Self {
             Self {
-                parts: m.parts.map(|v| v.into_iter().map(From::from).collect()),
+                parts: Some(m.parts.into_iter().map(From::from).collect()),
             }
         }
     }
-- 
2.43.0


From 3d874475f5d4b7793f7588202d0f6549889b262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 37/61] fix: DeleteObjects deleted another key when a key had
 white space around it

---
 src/ops/delete_objects.rs | 124 ++++++++++++++++++++++++++++----------
 1 file changed, 92 insertions(+), 32 deletions(-)

diff --git a/src/ops/delete_objects.rs b/src/ops/delete_objects.rs
index 1e7411c..e1d31b5 100644
--- a/src/ops/delete_objects.rs
+++ b/src/ops/delete_objects.rs
@@ -11,7 +11,6 @@ use crate::headers::{
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
-use crate::utils::body::deserialize_xml_body;
 use crate::utils::{ResponseExt, XmlWriterExt};
 use crate::{async_trait, Method, Response};
 
@@ -41,12 +40,14 @@ impl S3Handler for Handler {
 /// extract operation request
 pub async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectsRequest> {
     let bucket = ctx.unwrap_bucket_path();
-    let delete: self::xml::Delete = deserialize_xml_body(ctx.take_body())
+    let body = hyper::body::to_bytes(ctx.take_body())
         .await
         .map_err(|err| invalid_request!("Invalid xml format", err))?;
+    let delete = self::xml::parse_delete(&body)
+        .map_err(|err| invalid_request!("Invalid xml format", err))?;
 
     let mut input: DeleteObjectsRequest = DeleteObjectsRequest {
-        delete: delete.into(),
+        delete,
         bucket: bucket.into(),
         ..DeleteObjectsRequest::default()
     };
@@ -119,42 +120,101 @@ impl From<DeleteObjectsError> for S3Error {
 
 mod xml {
     //! Xml repr
-
-    use serde::Deserialize;
-
-    /// Object Identifier is unique value to identify objects.
-    #[derive(Debug, Deserialize)]
-    pub struct ObjectIdentifier {
-        /// Key name of the object to delete.
-        #[serde(rename = "Key")]
-        pub key: String,
-        /// VersionId for the specific version of the object to delete.
-        #[serde(rename = "VersionId")]
-        pub version_id: Option<String>,
+    //!
+    //! The document is read without a deserializer,
+    //! because the latter drops the white space around the keys.
+
+    use super::{Delete, ObjectIdentifier};
+    use crate::BoxStdError;
+
+    use std::str;
+
+    use quick_xml::events::{BytesStart, Event};
+    use quick_xml::Reader;
+
+    /// parse a `Delete` document
+    pub fn parse_delete(bytes: &[u8]) -> Result<Delete, BoxStdError> {
+        let text = str::from_utf8(bytes)?.trim_start_matches('\u{feff}');
+        let mut reader = Reader::from_str(text);
+        let _ = reader.expand_empty_elements(true);
+
+        let mut delete = Delete {
+            objects: Vec::new(),
+            quiet: None,
+        };
+
+        loop {
+            match reader.read_event()? {
+                Event::Start(_) => break,
+                Event::Eof => return Err("missing root element".into()),
+                _ => {}
+            }
+        }
+        while let Some(child) = next_child(&mut reader)? {
+            match child.local_name().as_ref() {
+                b"Object" => delete.objects.push(read_object(&mut reader)?),
+                b"Quiet" => {
+                    delete.quiet = match read_text(&mut reader)?.trim() {
+                        "true" | "1" => Some(true),
+                        "false" | "0" => Some(false),
+                        _ => return Err("invalid value of `Quiet`".into()),
+                    }
+                }
+                _ => drop(reader.read_to_end(child.name())?),
+            }
+        }
+        if delete.objects.is_empty() {
+            return Err("missing field `Object`".into());
+        }
+        Ok(delete)
     }
 
-    /// Container for the objects to delete.
-    #[derive(Debug, Deserialize)]
-    pub struct Delete {
-        /// The objects to delete.
-        #[serde(rename = "Object")]
-        pub objects: Vec<ObjectIdentifier>,
-        /// Element to enable quiet mode for the request. When you add this element, you must set its value to true.
-        #[serde(rename = "Quiet")]
-        pub quiet: Option<bool>,
+    /// read an `Object` element
+    fn read_object(reader: &mut Reader<&[u8]>) -> Result<ObjectIdentifier, BoxStdError> {
+        let mut key = None;
+        let mut version_id = None;
+        while let Some(child) = next_child(reader)? {
+            let field = match child.local_name().as_ref() {
+                b"Key" => &mut key,
+                b"VersionId" => &mut version_id,
+                _ => {
+                    drop(reader.read_to_end(child.name())?);
+                    continue;
+                }
+            };
+            if field.replace(read_text(reader)?).is_some() {
+                return Err("duplicate field".into());
+            }
+        }
+        let key = key.ok_or("missing field `Key`")?;
+        Ok(ObjectIdentifier { key, version_id })
     }
 
-    impl From<ObjectIdentifier> for super::ObjectIdentifier {
-        fn from(ObjectIdentifier { key, version_id }: ObjectIdentifier) -> Self {
-            Self { key, version_id }
+    /// find the next child of the current element, or the end of the current element
+    fn next_child<'a>(
+        reader: &mut Reader<&'a [u8]>,
+    ) -> Result<Option<BytesStart<'a>>, BoxStdError> {
+        loop {
+            match reader.read_event()? {
+                Event::Start(child) => return Ok(Some(child)),
+                Event::End(_) => return Ok(None),
+                Event::Eof => return Err("unexpected end of document".into()),
+                _ => {}
+            }
         }
     }
 
-    impl From<Delete> for super::Delete {
-        fn from(delete: Delete) -> Self {
-            Self {
-                quiet: delete.quiet,
-                objects: delete.objects.into_iter().map(Into::into).collect(),
+    /// read the text of the current element, up to its end
+    fn read_text(reader: &mut Reader<&[u8]>) -> Result<String, BoxStdError> {
+        let mut ans = String::new();
+        loop {
+            match reader.read_event()? {
+                Event::Text(text) => ans.push_str(&text.unescape()?),
+                Event::CData(text) => ans.push_str(str::from_utf8(&text)?),
+                Event::Start(_) => return Err("unexpected element".into()),
+                Event::End(_) => return Ok(ans),
+                Event::Eof => return Err("unexpected end of document".into()),
+                _ => {}
             }
         }
     }
-- 
2.43.0


From 5bb273d01a38f6d5f898cdd350014b6bd4a9b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 38/61] fix: bucket key and archive status of results were not
 sent

---
 src/headers.rs                       |  6 ++++++
 src/ops/complete_multipart_upload.rs |  7 ++++++-
 src/ops/copy_object.rs               | 12 ++++++++----
 src/ops/create_multipart_upload.rs   | 11 ++++++++---
 src/ops/get_object.rs                | 11 ++++++++---
 src/ops/head_object.rs               | 20 +++++++++++++-------
 src/ops/put_object.rs                | 12 ++++++++----
 src/ops/upload_part.rs               |  9 +++++++--
 8 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 69b8cce..37f9912 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -115,6 +115,12 @@ declare_header_name! {
     /// x-amz-server-side-encryption-context
     X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT: "x-amz-server-side-encryption-context";
 
+    /// x-amz-server-side-encryption-bucket-key-enabled
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED: "x-amz-server-side-encryption-bucket-key-enabled";
+
+    /// x-amz-archive-status
+    X_AMZ_ARCHIVE_STATUS: "x-amz-archive-status";
+
     /// x-amz-copy-source-server-side-encryption-customer-algorithm
     X_AMZ_COPY_SOURCE_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM: "x-amz-copy-source-server-side-encryption-customer-algorithm";
 
diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index d12b4d4..787f9c9 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -9,7 +9,8 @@ use crate::dto::{
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_VERSION_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -78,6 +79,10 @@ impl S3Output for CompleteMultipartUploadOutput {
         wrap_internal_error(|res| {
             res.set_optional_header(X_AMZ_EXPIRATION, self.expiration)?;
             res.set_optional_header(X_AMZ_SERVER_SIDE_ENCRYPTION, self.server_side_encryption)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_VERSION_ID, self.version_id)?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index e24f83d..69d7b32 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -16,10 +16,10 @@ use crate::headers::{
     X_AMZ_GRANT_WRITE_ACP, X_AMZ_METADATA_DIRECTIVE, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
     X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED,
     X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING, X_AMZ_TAGGING_DIRECTIVE, X_AMZ_VERSION_ID,
-    X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING,
+    X_AMZ_TAGGING_DIRECTIVE, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -156,6 +156,10 @@ impl S3Output for CopyObjectOutput {
             res.set_optional_header(X_AMZ_COPY_SOURCE_VERSION_ID, self.copy_source_version_id)?;
             res.set_optional_header(X_AMZ_VERSION_ID, self.version_id)?;
             res.set_optional_header(X_AMZ_SERVER_SIDE_ENCRYPTION, self.server_side_encryption)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
                 self.sse_customer_algorithm,
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index ed85ddc..d678565 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -12,9 +12,10 @@ use crate::headers::{
     X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
     X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED,
     X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING,
+    X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -58,6 +59,10 @@ impl S3Output for CreateMultipartUploadOutput {
             res.set_optional_header(X_AMZ_ABORT_DATE, self.abort_date)?;
             res.set_optional_header(X_AMZ_ABORT_RULE_ID, self.abort_rule_id)?;
             res.set_optional_header(X_AMZ_SERVER_SIDE_ENCRYPTION, self.server_side_encryption)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
                 self.sse_customer_algorithm,
diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index ae74abe..3e9b2eb 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -11,9 +11,10 @@ use crate::headers::{
     X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
     X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
     X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT,
+    X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -118,6 +119,10 @@ impl S3Output for GetObjectOutput {
             )?;
 
             res.set_optional_header(X_AMZ_SERVER_SIDE_ENCRYPTION, self.server_side_encryption)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
                 self.sse_customer_algorithm,
diff --git a/src/ops/head_object.rs b/src/ops/head_object.rs
index 5731c96..bcba032 100644
--- a/src/ops/head_object.rs
+++ b/src/ops/head_object.rs
@@ -7,13 +7,14 @@ use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
-    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER, X_AMZ_EXPIRATION,
-    X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE,
-    X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_ARCHIVE_STATUS, X_AMZ_DELETE_MARKER,
+    X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
+    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID,
+    X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -86,6 +87,7 @@ impl S3Output for HeadObjectOutput {
 
             res.set_optional_header(X_AMZ_EXPIRATION, self.expiration)?;
             res.set_optional_header(X_AMZ_RESTORE, self.restore)?;
+            res.set_optional_header(X_AMZ_ARCHIVE_STATUS, self.archive_status)?;
 
             res.set_optional_header(
                 LAST_MODIFIED,
@@ -114,6 +116,10 @@ impl S3Output for HeadObjectOutput {
             )?;
 
             res.set_optional_header(X_AMZ_SERVER_SIDE_ENCRYPTION, self.server_side_encryption)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
                 self.sse_customer_algorithm,
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 3e1b347..d069ea7 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -10,10 +10,10 @@ use crate::headers::{
     X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP,
     X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
     X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING,
-    X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
+    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::path::S3Path;
@@ -279,6 +279,10 @@ impl S3Output for PutObjectOutput {
             res.set_optional_header(X_AMZ_EXPIRATION, self.expiration)?;
             res.set_optional_header(ETAG, self.e_tag)?;
             res.set_optional_header(X_AMZ_SERVER_SIDE_ENCRYPTION, self.server_side_encryption)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_VERSION_ID, self.version_id)?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7951a5f..925fa8c 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -6,8 +6,9 @@ use crate::dto::{UploadPartError, UploadPartOutput, UploadPartRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_REQUEST_CHARGED, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -94,6 +95,10 @@ impl S3Output for UploadPartOutput {
             res.set_optional_header(ETAG, self.e_tag)?;
 
             res.set_optional_header(X_AMZ_SERVER_SIDE_ENCRYPTION, self.server_side_encryption)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
                 self.sse_customer_algorithm,
-- 
2.43.0


From cdb410ab9b68385067a7961362d345dfa803fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 39/61] fix: CopyObject sent an empty document when there was
 no result

---
 src/ops/copy_object.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 69d7b32..65bfbad 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -178,10 +178,10 @@ impl S3Output for CopyObjectOutput {
             )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
 
-            let copy_object_result = self.copy_object_result;
+            let result = self.copy_object_result.unwrap_or_default();
 
             res.set_xml_body(64, |w| {
-                w.opt_stack("CopyObjectResult", copy_object_result, |w, result| {
+                w.stack("CopyObjectResult", |w| {
                     w.opt_element("ETag", result.e_tag)?;
                     w.opt_element("LastModified", result.last_modified)
                 })
-- 
2.43.0


From a32724698f22cbb1bfe4270b769ffb6076212940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 40/61] fix: headers added to a POST form upload were obeyed

---
 src/service.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 7d67e68..8a7d373 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -393,6 +393,9 @@ async fn check_post_signature(
         }
     };
 
+    // a form signs none of the headers
+    check_signed_headers(&ctx.headers, &[])?;
+
     let mime = ctx.mime.as_ref().unwrap_or_else(|| panic!("missing mime"));
 
     let boundary = mime
-- 
2.43.0


From ca9c2d8f28681bd3f9a482ccc149a0e36e6fce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 41/61] fix: the length and type of a form were passed on as
 those of its file

---
 src/ops/put_object.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index d069ea7..332ba2a 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -123,6 +123,11 @@ fn limit_length(
 
 /// extract from multipart
 fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart) -> S3Result<()> {
+    // these headers are about the form
+    input.content_length = None;
+    input.content_md5 = None;
+    input.content_type = None;
+
     multipart.assign_str("acl", &mut input.acl);
     multipart.assign_str("content-type", &mut input.content_type);
     multipart.assign_str("expires", &mut input.expires);
@@ -150,9 +155,6 @@ fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart
     }
     // TODO: how to handle the other fields?
 
-    // this header is about the form
-    input.content_md5 = None;
-
     let file_stream = multipart.file.stream;
 
     input.body = file_stream.apply(transform_file_stream).apply(Some);
-- 
2.43.0


From 5ea3f8ea7ec48889f8d37a55105449bff2a93cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 42/61] fix: carriage returns in XML answers were read as line
 feeds

---
 src/utils/response.rs |  7 +++++--
 src/utils/xml.rs      | 25 +++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/utils/response.rs b/src/utils/response.rs
index 3a25c9a..310ced7 100644
--- a/src/utils/response.rs
+++ b/src/utils/response.rs
@@ -5,7 +5,7 @@ use crate::{Body, BoxStdError, Mime, Response, StatusCode};
 use std::{collections::HashMap, convert::TryFrom};
 
 use hyper::header::{self, HeaderName, HeaderValue, InvalidHeaderValue};
-use xml::{common::XmlVersion, writer::XmlEvent, EventWriter};
+use xml::{common::XmlVersion, writer::XmlEvent, EmitterConfig, EventWriter};
 
 /// `ResponseExt`
 pub trait ResponseExt {
@@ -73,7 +73,10 @@ impl ResponseExt for Response {
     {
         let mut body = Vec::with_capacity(cap);
         {
-            let mut w = EventWriter::new(&mut body);
+            // `XmlWriterExt` escapes
+            let mut config = EmitterConfig::new();
+            config.perform_escaping = false;
+            let mut w = EventWriter::new_with_config(&mut body, config);
             w.write(XmlEvent::StartDocument {
                 version: XmlVersion::Version10,
                 encoding: Some("UTF-8"),
diff --git a/src/utils/xml.rs b/src/utils/xml.rs
index 671d117..636f810 100644
--- a/src/utils/xml.rs
+++ b/src/utils/xml.rs
@@ -1,9 +1,30 @@
 //! helper trait for writing xml
 
+use std::fmt::Write;
 use std::io;
 use std::ops::Deref;
 use xml::writer::{events::XmlEvent, EventWriter, Result};
 
+/// escape the characters of an element
+///
+/// The escaping of `EventWriter` leaves carriage returns alone,
+/// which a parser then takes for line feeds.
+fn escape(data: &str) -> String {
+    let mut ans = String::with_capacity(data.len());
+    for c in data.chars() {
+        match c {
+            '<' => ans.push_str("&lt;"),
+            '>' => ans.push_str("&gt;"),
+            '&' => ans.push_str("&amp;"),
+            c if c.is_control() && c != '\n' && c != '\t' => {
+                let _ = write!(ans, "&#x{:X};", u32::from(c));
+            }
+            c => ans.push(c),
+        }
+    }
+    ans
+}
+
 /// helper trait for writing xml
 pub trait XmlWriterExt {
     /// write xml stack
@@ -54,14 +75,14 @@ impl<W: io::Write> XmlWriterExt for EventWriter<W> {
 
     fn element(&mut self, name: &str, data: &str) -> Result<()> {
         self.write(XmlEvent::start_element(name))?;
-        self.write(XmlEvent::characters(data))?;
+        self.write(XmlEvent::characters(&escape(data)))?;
         self.write(XmlEvent::end_element())
     }
 
     fn opt_element(&mut self, name: &str, data: Option<impl Deref<Target = str>>) -> Result<()> {
         if let Some(data) = data {
             self.write(XmlEvent::start_element(name))?;
-            self.write(XmlEvent::characters(&data))?;
+            self.write(XmlEvent::characters(&escape(&data)))?;
             self.write(XmlEvent::end_element())?;
         }
         Ok(())
-- 
2.43.0


From ed001143d98f110705e9084d079cc3470d003159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 43/61] fix: a copy refused because of the tier of its source
 was answered with status 200

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index fbf9e47..13cdcc8 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -615,7 +615,7 @@ impl S3ErrorCode {
             Self::NotImplemented => Some(StatusCode::NOT_IMPLEMENTED),
             Self::NotSignedUp => Some(StatusCode::FORBIDDEN),
             Self::NotSupported => None,
-            Self::ObjectNotInActiveTierError => Some(StatusCode::OK),
+            Self::ObjectNotInActiveTierError => Some(StatusCode::FORBIDDEN),
             Self::OperationAborted => Some(StatusCode::CONFLICT),
             Self::PermanentRedirect => Some(StatusCode::MOVED_PERMANENTLY),
             Self::PreconditionFailed => Some(StatusCode::PRECONDITION_FAILED),
-- 
2.43.0


From 1e5895b7e4853646e800fb59f9958867caf3bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 44/61] fix: requests whose content type is not a media type
 were refused

---
 src/service.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 8a7d373..0b4e7c1 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -151,7 +151,7 @@ impl S3Service {
         let path = extract_s3_path(&uri_path)?;
         let headers = extract_headers(&req)?;
         let query_strings = extract_qs(&req)?;
-        let mime = extract_mime(&headers)?;
+        let mime = extract_mime(&headers);
 
         let mut ctx: ReqContext<'_> = ReqContext {
             req: &req,
@@ -278,10 +278,10 @@ fn extract_qs(req: &Request) -> S3Result<Option<OrderedQs>> {
 }
 
 /// extrace `Option<Mime>` from headers
-fn extract_mime(headers: &OrderedHeaders<'_>) -> S3Result<Option<Mime>> {
-    let content_type = try_some!(headers.get(CONTENT_TYPE));
-    let err = try_err!(content_type.parse::<Mime>().map(Some));
-    invalid_request!("Invalid header: Content-Type", err).apply(Err)
+///
+/// The content type of an object may be any string
+fn extract_mime(headers: &OrderedHeaders<'_>) -> Option<Mime> {
+    headers.get(CONTENT_TYPE)?.parse::<Mime>().ok()
 }
 
 /// extract `AmzContentSha256` from headers
-- 
2.43.0


From f6090724d63d9377b259fa68434cb3d53cbd7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 45/61] fix: stray percent signs in paths were taken literally

---
 src/service.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 0b4e7c1..05b2b5f 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -243,8 +243,19 @@ fn is_unsupported(ctx: &ReqContext<'_>) -> bool {
 
 /// Extract urlencoded URI from Request
 fn decode_uri_path(req: &Request) -> S3Result<Cow<'_, str>> {
-    urlencoding::decode(req.uri().path())
-        .map_err(|e| code_error!(InvalidURI, "Cannot url decode uri path", e))
+    let path = req.uri().path();
+
+    // `urlencoding::decode` takes a stray percent sign for itself
+    let is_encoded = path.split('%').skip(1).all(|s| {
+        s.as_bytes()
+            .get(..2)
+            .map_or(false, |b| b.iter().all(u8::is_ascii_hexdigit))
+    });
+    if !is_encoded {
+        return Err(code_error!(InvalidURI, "Couldn't parse the specified URI."));
+    }
+
+    urlencoding::decode(path).map_err(|e| code_error!(InvalidURI, "Cannot url decode uri path", e))
 }
 
 /// util function
-- 
2.43.0


From c7ec6e22275d2a3b8e9f08c37eaf23363424f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 46/61] fix: a directory object must not bring back a bucket
 which is deleted at the same time

---
 src/storages/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ae3f9d0..e3f3753 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -998,7 +998,11 @@ impl S3Storage for FileSystem {
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = self.get_object_path(&bucket, &key)?;
-                trace_try!(async_fs::create_dir_all(&object_path).await);
+                {
+                    let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+                    self.check_bucket(&bucket)?;
+                    trace_try!(std::fs::create_dir_all(&object_path));
+                }
                 let output = PutObjectOutput::default();
                 return Ok(output);
             }
-- 
2.43.0


From cddb0145b7314c885b56c49fdb059b052912c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 47/61] fix: a multipart upload must not outlive a bucket which
 is deleted while it is initiated

---
 src/storages/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index e3f3753..331f088 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -1064,7 +1064,11 @@ impl S3Storage for FileSystem {
         let content = trace_try!(serde_json::to_vec(&info));
         let (temp_file, _) = trace_try!(TempFile::create(&self.root));
         trace_try!(std::fs::write(&temp_file.path, &content));
-        trace_try!(temp_file.persist(&self.get_upload_path(&upload_id, "json")));
+        {
+            let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+            self.check_bucket(&input.bucket)?;
+            trace_try!(temp_file.persist(&self.get_upload_path(&upload_id, "json")));
+        }
 
         let output = CreateMultipartUploadOutput {
             bucket: Some(input.bucket),
-- 
2.43.0


From 0a17b81c5310dca1bda9a401e36a8909cc05de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 48/61] fix: DeleteBucket kept a multipart upload usable if its
 record could not be read

The record was skipped silently, and the bucket was reported deleted. Now
everything that belongs to the bucket is collected before anything is
changed, and a failure is reported.
---
 src/storages/fs.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 331f088..ded7f1c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -294,8 +294,9 @@ impl FileSystem {
         let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
 
         self.check_bucket(bucket)?;
-        trace_try!(std::fs::rename(&path, &trash_path));
 
+        // nothing is changed unless everything that belongs to the bucket is known
+        let mut stale_paths = Vec::new();
         for entry in trace_try!(std::fs::read_dir(&self.root)) {
             let entry = trace_try!(entry);
             let file_name = entry.file_name();
@@ -306,18 +307,22 @@ impl FileSystem {
                 .and_then(|s| s.strip_suffix(".json"));
 
             if file_name.starts_with(&metadata_prefix) {
-                trace_try!(remove_file_if_exists(&entry.path()));
+                stale_paths.push(entry.path());
             } else if let Some(upload_id) = upload_id {
-                let info = std::fs::read(entry.path())
-                    .ok()
-                    .and_then(|content| serde_json::from_slice::<UploadInfo>(&content).ok());
+                let content = trace_try!(std::fs::read(entry.path()));
+                let info = serde_json::from_slice::<UploadInfo>(&content);
                 if info.map_or(false, |info| info.bucket == bucket) {
-                    trace_try!(remove_file_if_exists(&entry.path()));
+                    stale_paths.push(entry.path());
                     upload_ids.push(upload_id.to_owned());
                 }
             }
         }
 
+        trace_try!(std::fs::rename(&path, &trash_path));
+        for stale_path in stale_paths {
+            trace_try!(remove_file_if_exists(&stale_path));
+        }
+
         Ok((trash_path, upload_ids))
     }
 
-- 
2.43.0


From d742d4b9b8df83cf83ed4534f787f90ca5e7963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 49/61] fix: DELETE bucket and CompleteMultipartUpload left
 files behind when their client disconnected

The files of a removed bucket and the parts of finished uploads are removed
after the change has taken effect, which a cancelled request never did. They
are removed in a thread of their own now, which ends by itself.
---
 src/storages/fs.rs | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ded7f1c..73f5a13 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -31,6 +31,7 @@ use std::path::{Component, Path, PathBuf};
 use std::sync::{Mutex, PoisonError};
 use std::time::Duration;
 
+use futures::channel::oneshot;
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
 use hyper::body::Bytes;
@@ -155,13 +156,17 @@ impl FileSystem {
         ))
     }
 
-    /// remove the files of a finished multipart upload
-    async fn remove_upload(&self, upload_id: &str) -> io::Result<()> {
-        let prefix = format!(".upload_id-{upload_id}.");
-        let mut iter = async_fs::read_dir(&self.root).await?;
-        while let Some(entry) = iter.next().await {
+    /// remove the files of finished multipart uploads
+    fn remove_uploads(root: &Path, upload_ids: &[String]) -> io::Result<()> {
+        for entry in std::fs::read_dir(root)? {
             let entry = entry?;
-            if entry.file_name().to_string_lossy().starts_with(&prefix) {
+            let file_name = entry.file_name();
+            let file_name = file_name.to_string_lossy();
+            let upload_id = file_name
+                .strip_prefix(".upload_id-")
+                .and_then(|s| s.split_once('.'))
+                .map(|(upload_id, _)| upload_id);
+            if upload_ids.iter().any(|id| Some(id.as_str()) == upload_id) {
                 remove_file_if_exists(&entry.path())?;
             }
         }
@@ -400,6 +405,14 @@ fn is_absent(err: &io::Error, path: &Path) -> bool {
         || path.iter().any(|name| name.len() > MAX_FILE_NAME_LEN)
 }
 
+/// run a blocking function to its end, even if the request is cancelled meanwhile
+async fn run_to_end(f: impl FnOnce() -> io::Result<()> + Send + 'static) -> io::Result<()> {
+    let (tx, rx) = oneshot::channel();
+    let _handle = std::thread::Builder::new().spawn(move || tx.send(f()))?;
+    rx.await
+        .unwrap_or_else(|err| Err(io::Error::new(io::ErrorKind::Other, err)))
+}
+
 /// remove a file, which may not exist
 fn remove_file_if_exists(path: &Path) -> io::Result<()> {
     match std::fs::remove_file(path) {
@@ -569,13 +582,16 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
         let (trash_path, upload_ids) = self.remove_bucket(&input.bucket)?;
 
-        if let Err(e) = async_fs::remove_dir_all(trash_path).await {
-            error!(error = %e, "DeleteBucket: remove files");
-        }
-        for upload_id in upload_ids {
-            if let Err(e) = self.remove_upload(&upload_id).await {
-                error!(error = %e, "DeleteBucket: remove parts");
+        let root = self.root.clone();
+        let remove = move || {
+            let ret = std::fs::remove_dir_all(trash_path);
+            if !upload_ids.is_empty() {
+                Self::remove_uploads(&root, &upload_ids)?;
             }
+            ret
+        };
+        if let Err(e) = run_to_end(remove).await {
+            error!(error = %e, "DeleteBucket: remove files");
         }
 
         Ok(DeleteBucketOutput)
@@ -1245,7 +1261,9 @@ impl S3Storage for FileSystem {
             Some(&upload_id),
         )?;
 
-        if let Err(e) = self.remove_upload(&upload_id).await {
+        let root = self.root.clone();
+        let remove = move || Self::remove_uploads(&root, &[upload_id]);
+        if let Err(e) = run_to_end(remove).await {
             error!(error = %e, "CompleteMultipartUpload: remove parts");
         }
 
-- 
2.43.0


From ef8a8997447d312af579d4463a356cc6f39bee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 50/61] fix: the header of an aws-chunked chunk could grow
 without bound

---
 src/streams/aws_chunked_stream.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index 4666e42..56cf0fe 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -17,6 +17,9 @@ use hyper::body::{Buf, Bytes};
 use memchr::memchr;
 use transform_stream::AsyncTryStream;
 
+/// maximum length of a chunk header, which is not more than `ffffffff;chunk-signature={64 bytes}\r\n`
+const MAX_CHUNK_META_LEN: usize = 1024;
+
 /// Aws chunked stream
 pub struct AwsChunkedStream {
     /// inner
@@ -157,7 +160,7 @@ impl AwsChunkedStream {
                                 {
                                     // the final chunk has not been received
                                     None => return Err(AwsChunkedStreamError::Incomplete),
-                                    Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
+                                    Some(Err(e)) => return Err(e),
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
                                 if let Ok((_, meta)) = parse_chunk_meta(&buf) {
@@ -210,7 +213,7 @@ impl AwsChunkedStream {
         mut body: Pin<&mut S>,
         prev_bytes: Bytes,
         buf: &mut Vec<u8>,
-    ) -> Option<io::Result<Bytes>>
+    ) -> Option<Result<Bytes, AwsChunkedStreamError>>
     where
         S: Stream<Item = io::Result<Bytes>> + Send + 'static,
     {
@@ -221,23 +224,23 @@ impl AwsChunkedStream {
                 let len = idx.wrapping_add(1); // NOTE: idx < bytes.len()
                 let leading = bytes.split_to(len);
                 buf.extend_from_slice(leading.as_ref());
-                return Some(bytes);
+                return Some(Ok(bytes));
             }
 
             buf.extend_from_slice(bytes.as_ref());
-            None
+            (buf.len() > MAX_CHUNK_META_LEN).then(|| Err(AwsChunkedStreamError::FormatError))
         };
 
-        if let Some(remaining_bytes) = push_meta_bytes(prev_bytes) {
-            return Some(Ok(remaining_bytes));
+        if let Some(ans) = push_meta_bytes(prev_bytes) {
+            return Some(ans);
         }
 
         loop {
             match body.next().await? {
-                Err(e) => return Some(Err(e)),
+                Err(e) => return Some(Err(AwsChunkedStreamError::Io(e))),
                 Ok(bytes) => {
-                    if let Some(remaining_bytes) = push_meta_bytes(bytes) {
-                        return Some(Ok(remaining_bytes));
+                    if let Some(ans) = push_meta_bytes(bytes) {
+                        return Some(ans);
                     }
                 }
             }
-- 
2.43.0


From d64ea89c8549806a51fce1e3148d482a49c95f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 51/61] fix: the data in front of the file of a form could grow
 without bound

---
 src/streams/multipart.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index b39db78..3c32096 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -76,6 +76,19 @@ fn generate_format_error() -> io::Error {
     )
 }
 
+/// Limit of the data in front of the file, which is kept in memory
+///
+/// (S3 accepts 20 KB of form fields)
+const MAX_PRE_DATA_LENGTH: usize = 64 * 1024;
+
+/// generate length error
+fn generate_length_error() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidData,
+        "the form fields preceding the upload file were too large",
+    )
+}
+
 /// transform multipart
 /// # Errors
 /// Returns an `Err` if the format is invalid
@@ -108,6 +121,9 @@ where
             Err((b, p)) => {
                 body = b;
                 pat = p;
+                if buf.len() > MAX_PRE_DATA_LENGTH {
+                    return Err(generate_length_error());
+                }
             }
             Ok(ans) => return ans,
         }
@@ -198,6 +214,10 @@ where
                 fields.push((content_disposition.name.to_owned(), value.to_owned()));
             }
             Some(filename) => {
+                // (whatever the pieces it arrives in)
+                if buf.len().saturating_sub(lines.slice.len()) > MAX_PRE_DATA_LENGTH {
+                    return Ok(Err(generate_length_error()));
+                }
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
                     // the default of RFC 7578
                     None => "text/plain",
-- 
2.43.0


From 6bb62de6ffbd746da3e1439b53d95bd75af76d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 52/61] fix: signed HTTP/2 requests were refused

---
 src/data_structures/ordered_headers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index 3959b93..a19d6cb 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -4,7 +4,7 @@ use crate::Request;
 
 use std::str::FromStr;
 
-use hyper::header::{AsHeaderName, ToStrError};
+use hyper::header::{AsHeaderName, ToStrError, HOST};
 use smallvec::SmallVec;
 
 /// Immutable http header container
@@ -35,6 +35,11 @@ impl<'a> OrderedHeaders<'a> {
         for (name, value) in req.headers().iter() {
             headers.push((name.as_str(), value.to_str()?));
         }
+        // HTTP/2 has a pseudo-header in place of `Host`
+        if let (false, Some(authority)) = (req.headers().contains_key(HOST), req.uri().authority())
+        {
+            headers.push((HOST.as_str(), authority.as_str()));
+        }
         // the values of a header stay in the order they were sent
         headers.sort_by_key(|&(name, _)| name);
 
-- 
2.43.0


From 6ad346c2e5590d5d9cc9f63ff3aa43f70d698ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 53/61] fix: U+FFFE and U+FFFF made the XML of a response
 malformed

---
 src/utils/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/xml.rs b/src/utils/xml.rs
index 636f810..9004cec 100644
--- a/src/utils/xml.rs
+++ b/src/utils/xml.rs
@@ -16,7 +16,9 @@ fn escape(data: &str) -> String {
             '<' => ans.push_str("&lt;"),
             '>' => ans.push_str("&gt;"),
             '&' => ans.push_str("&amp;"),
-            c if c.is_control() && c != '\n' && c != '\t' => {
+            c if (c.is_control() && c != '\n' && c != '\t')
+                || matches!(c, '\u{FFFE}' | '\u{FFFF}') =>
+            {
                 let _ = write!(ans, "&#x{:X};", u32::from(c));
             }
             c => ans.push(c),
-- 
2.43.0


From 69a4d74142e2eb9a8f8840ed42ac8c87ff69514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 54/61] fix: CopyObject reported the time of the source as that
 of the copy

---
 src/storages/fs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 73f5a13..781df33 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -539,11 +539,11 @@ impl S3Storage for FileSystem {
             _ => src_metadata,
         };
 
-        let file_metadata = trace_try!(src_file.metadata().await);
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-
         let (temp_file, mut dst_file) = trace_try!(TempFile::create(&self.root));
         let _ = trace_try!(futures::io::copy(&mut src_file, &mut dst_file).await);
+
+        let file_metadata = trace_try!(dst_file.metadata().await);
+        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
         drop(dst_file);
 
         let _ = trace_try!(src_file.seek(SeekFrom::Start(0)).await);
-- 
2.43.0


From 2a7537726935294a6a385202663144a4b35747d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 55/61] fix: secret keys were written to the log

---
 src/auth.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auth.rs b/src/auth.rs
index a762fe0..2d0139f 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -3,6 +3,7 @@
 use crate::errors::S3AuthError;
 
 use std::collections::HashMap;
+use std::fmt::{self, Debug};
 
 use async_trait::async_trait;
 
@@ -14,12 +15,21 @@ pub trait S3Auth {
 }
 
 /// A simple authentication provider
-#[derive(Debug, Default)]
+#[derive(Default)]
 pub struct SimpleAuth {
     /// key map
     map: HashMap<String, String>,
 }
 
+impl Debug for SimpleAuth {
+    /// secret keys are not shown, because they would end up in logs
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("SimpleAuth")
+            .field("access_keys", &self.map.keys().collect::<Vec<_>>())
+            .finish()
+    }
+}
+
 impl SimpleAuth {
     /// Constructs a new `SimpleAuth`
     #[must_use]
-- 
2.43.0


From 5c5156c0b7bb801944387699d0dd81e606157eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 56/61] fix: headers of a form request were stored with the
 object of the form

---
 src/ops/put_object.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 332ba2a..89e2225 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -123,10 +123,12 @@ fn limit_length(
 
 /// extract from multipart
 fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart) -> S3Result<()> {
-    // these headers are about the form
-    input.content_length = None;
-    input.content_md5 = None;
-    input.content_type = None;
+    // the headers are about the form
+    *input = PutObjectRequest {
+        bucket: mem::take(&mut input.bucket),
+        key: mem::take(&mut input.key),
+        ..PutObjectRequest::default()
+    };
 
     multipart.assign_str("acl", &mut input.acl);
     multipart.assign_str("content-type", &mut input.content_type);
-- 
2.43.0


From 40a12c55591a196169fe97837d9ec65519d17e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:55 +0000
Subject: [PATCH 57/61] fix: the file of a form was told by a file name instead
 of its field name

A field with a file name was stored in place of the file behind it, and a file without one was refused.
---
 src/streams/multipart.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 3c32096..bea4f82 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -196,8 +196,10 @@ where
             Some(Err(_)) => return Ok(Err(generate_format_error())),
             Some(Ok((_, c))) => c,
         };
+        // any field may have a file name, and the file may have none
+        let is_file = content_disposition.name.eq_ignore_ascii_case("file");
         match content_disposition.filename {
-            None => {
+            _ if !is_file => {
                 let value = match lines.split_to(pat_without_crlf) {
                     None => return Err((body, pat)),
                     Some(b) => {
@@ -213,7 +215,7 @@ where
 
                 fields.push((content_disposition.name.to_owned(), value.to_owned()));
             }
-            Some(filename) => {
+            filename => {
                 // (whatever the pieces it arrives in)
                 if buf.len().saturating_sub(lines.slice.len()) > MAX_PRE_DATA_LENGTH {
                     return Ok(Err(generate_length_error()));
@@ -231,7 +233,7 @@ where
                 };
                 let file_stream = FileStream::new(body, boundary, remaining_bytes);
                 let file = File {
-                    name: filename.to_owned(),
+                    name: filename.unwrap_or_default().to_owned(),
                     content_type: content_type.to_owned(),
                     stream: file_stream,
                     length_range: (0, u64::MAX),
@@ -449,7 +451,7 @@ struct ContentDisposition<'a> {
 /// parse content disposition value
 fn parse_content_disposition(input: &[u8]) -> nom::IResult<&[u8], ContentDisposition<'_>> {
     use nom::{
-        bytes::complete::{tag, take, take_till1},
+        bytes::complete::{tag, take, take_till, take_till1},
         combinator::{all_consuming, map_res, opt},
         sequence::{delimited, preceded, tuple},
     };
@@ -462,7 +464,7 @@ fn parse_content_disposition(input: &[u8]) -> nom::IResult<&[u8], ContentDisposi
 
     let filename_parser = delimited(
         tag(b"filename=\""),
-        map_res(take_till1(|c| c == b'"'), std::str::from_utf8),
+        map_res(take_till(|c| c == b'"'), std::str::from_utf8),
         take(1_usize),
     );
 
-- 
2.43.0


From 0c5c8128d2e1961cda30c76c46d195f051e572b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 58/61] fix: a directory object was refused if its empty body
 was not sent with a content length of zero

---
 src/storages/fs.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 781df33..ff6b95f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -1005,7 +1005,6 @@ impl S3Storage for FileSystem {
             bucket,
             key,
             metadata,
-            content_length,
             content_md5,
             ..
         } = input;
@@ -1017,21 +1016,25 @@ impl S3Storage for FileSystem {
         self.check_bucket(&bucket)?;
 
         if key.ends_with('/') {
-            if content_length == Some(0) {
-                let object_path = self.get_object_path(&bucket, &key)?;
-                {
-                    let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
-                    self.check_bucket(&bucket)?;
-                    trace_try!(std::fs::create_dir_all(&object_path));
+            // the length in the headers may be missing or that of an encoded body
+            let mut body = Box::pin(body);
+            while let Some(bytes) = body.next().await {
+                if !trace_try!(bytes).is_empty() {
+                    let err = code_error!(
+                        UnexpectedContent,
+                        "Unexpected request body when creating a directory object."
+                    );
+                    return Err(err.into());
                 }
-                let output = PutObjectOutput::default();
-                return Ok(output);
             }
-            let err = code_error!(
-                UnexpectedContent,
-                "Unexpected request body when creating a directory object."
-            );
-            return Err(err.into());
+            let object_path = self.get_object_path(&bucket, &key)?;
+            {
+                let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+                self.check_bucket(&bucket)?;
+                trace_try!(std::fs::create_dir_all(&object_path));
+            }
+            let output = PutObjectOutput::default();
+            return Ok(output);
         }
 
         let object_path = self.get_object_path(&bucket, &key)?;
-- 
2.43.0


From 42dea9ebc36f760d64f2d01afe824d9e387e4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 59/61] fix: keys of a listing were not encoded as asked for
 and told

---
 src/storages/fs.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ff6b95f..bedb623 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -478,6 +478,15 @@ fn check_content_md5(content_md5: Option<&str>, md5_sum: &str) -> S3Result<()> {
     Ok(())
 }
 
+/// encode a key (or a part of one) of a listing in the way the client has asked for
+fn encode_key(key: String, encoding_type: Option<&str>) -> String {
+    if encoding_type != Some("url") {
+        return key;
+    }
+    let segments = key.split('/').map(|segment| urlencoding::encode(segment));
+    segments.collect::<Vec<_>>().join("/")
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -890,10 +899,16 @@ impl S3Storage for FileSystem {
             lhs_key.cmp(rhs_key)
         });
 
+        let encoding_type = input.encoding_type.as_deref();
+        for object in &mut objects {
+            object.key = (object.key.take()).map(|key| encode_key(key, encoding_type));
+        }
+        let delimiter = (input.delimiter).map(|delimiter| encode_key(delimiter, encoding_type));
+
         // TODO: handle other fields
         let output = ListObjectsOutput {
             contents: Some(objects),
-            delimiter: input.delimiter,
+            delimiter,
             encoding_type: input.encoding_type,
             name: Some(input.bucket),
             common_prefixes: None,
@@ -965,11 +980,17 @@ impl S3Storage for FileSystem {
             lhs_key.cmp(rhs_key)
         });
 
+        let encoding_type = input.encoding_type.as_deref();
+        for object in &mut objects {
+            object.key = (object.key.take()).map(|key| encode_key(key, encoding_type));
+        }
+        let delimiter = (input.delimiter).map(|delimiter| encode_key(delimiter, encoding_type));
+
         // TODO: handle other fields
         let output = ListObjectsV2Output {
             key_count: Some(trace_try!(objects.len().try_into())),
             contents: Some(objects),
-            delimiter: input.delimiter,
+            delimiter,
             encoding_type: input.encoding_type,
             name: Some(input.bucket),
             common_prefixes: None,
-- 
2.43.0


From 6d2262c4d32c4535863f865df1ecca4651864b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 60/61] fix: metadata of a directory object was dropped

---
 src/storages/fs.rs | 55 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index bedb623..851c008 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -217,6 +217,43 @@ impl FileSystem {
         Ok((File::from(file), metadata))
     }
 
+    /// write metadata to a file which is not visible yet
+    fn write_metadata(
+        &self,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> S3Result<Option<TempFile>> {
+        let metadata = match metadata {
+            None => return Ok(None),
+            Some(metadata) => metadata,
+        };
+        let content = trace_try!(serde_json::to_vec(metadata));
+        let (metadata_file, _) = trace_try!(TempFile::create(&self.root));
+        trace_try!(std::fs::write(&metadata_file.path, &content));
+        Ok(Some(metadata_file))
+    }
+
+    /// create or replace a directory object together with its metadata
+    fn commit_directory_object(
+        &self,
+        bucket: &str,
+        key: &str,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> S3Result<()> {
+        let object_path = self.get_object_path(bucket, key)?;
+        let metadata_path = trace_try!(self.get_metadata_path(bucket, key));
+        let metadata_file = self.write_metadata(metadata)?;
+
+        let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
+
+        self.check_bucket(bucket)?;
+        trace_try!(std::fs::create_dir_all(&object_path));
+        trace_try!(remove_file_if_exists(&metadata_path));
+        if let Some(metadata_file) = metadata_file {
+            trace_try!(metadata_file.persist(&metadata_path));
+        }
+        Ok(())
+    }
+
     /// replace an object together with its metadata, and finish its multipart upload (if any)
     fn commit_object(
         &self,
@@ -229,15 +266,7 @@ impl FileSystem {
         let object_path = self.get_object_path(bucket, key)?;
         let metadata_path = trace_try!(self.get_metadata_path(bucket, key));
 
-        let metadata_file = match metadata {
-            None => None,
-            Some(metadata) => {
-                let content = trace_try!(serde_json::to_vec(metadata));
-                let (metadata_file, _) = trace_try!(TempFile::create(&self.root));
-                trace_try!(std::fs::write(&metadata_file.path, &content));
-                Some(metadata_file)
-            }
-        };
+        let metadata_file = self.write_metadata(metadata)?;
 
         let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
 
@@ -276,6 +305,7 @@ impl FileSystem {
                 trace_try!(remove_file_if_exists(&metadata_path));
             }
             Ok(_) if key.ends_with('/') => {
+                trace_try!(remove_file_if_exists(&metadata_path));
                 let is_empty = trace_try!(std::fs::read_dir(&object_path)).next().is_none();
                 if is_empty {
                     trace_try!(std::fs::remove_dir(&object_path));
@@ -1048,12 +1078,7 @@ impl S3Storage for FileSystem {
                     return Err(err.into());
                 }
             }
-            let object_path = self.get_object_path(&bucket, &key)?;
-            {
-                let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
-                self.check_bucket(&bucket)?;
-                trace_try!(std::fs::create_dir_all(&object_path));
-            }
+            self.commit_directory_object(&bucket, &key, metadata.as_ref())?;
             let output = PutObjectOutput::default();
             return Ok(output);
         }
-- 
2.43.0


From 6f2791e3611a2111547dadcb4488bd1f2f2899d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 61/61] fix: Content-MD5 of a directory object was not checked

---
 src/storages/fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 851c008..aaa4698 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -1078,6 +1078,8 @@ impl S3Storage for FileSystem {
                     return Err(err.into());
                 }
             }
+            let md5_sum = Md5::new().finalize().apply(crypto::to_hex_string);
+            check_content_md5(content_md5.as_deref(), &md5_sum)?;
             self.commit_directory_object(&bucket, &key, metadata.as_ref())?;
             let output = PutObjectOutput::default();
             return Ok(output);
-- 
2.43.0

