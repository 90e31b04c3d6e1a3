//! A storage which records what it is asked and answers as scripted.
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::{self, StreamExt};
use s3_server::dto::*;
use s3_server::errors::{S3AuthError, S3Error, S3ErrorCode, S3StorageError, S3StorageResult};
use rusoto_s3::{CommonPrefix, S3Error as DeleteFailure};
use s3_server::{S3Auth, S3Service, S3Storage, SharedS3Service};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Call {
    pub op: &'static str,
    /// the request, without absent fields
    pub input: Value,
    /// whether there was a body
    pub has_body: bool,
    /// what was delivered of the body
    pub body: Vec<u8>,
    /// how the body broke off
    pub body_err: Option<String>,
    /// the body was read to its end (or break)
    pub done: bool,
}

#[derive(Clone, Debug)]
pub enum Answer {
    /// fields of the result, and the pieces of the body of GetObject
    Output(Value, Vec<Vec<u8>>),
    Error(S3ErrorCode, Option<String>),
    /// a variant of the error type of the operation
    OpError(&'static str, String),
}

#[derive(Default)]
pub struct State {
    pub calls: Mutex<Vec<Call>>,
    pub script: Mutex<HashMap<&'static str, Answer>>,
    /// access keys the provider was asked for
    pub lookups: Mutex<Vec<String>>,
    pub keys: Mutex<HashMap<String, String>>,
    /// the provider fails
    pub trouble: Mutex<Option<(S3ErrorCode, String)>>,
    /// do not read bodies
    pub lazy: std::sync::atomic::AtomicBool,
    /// with `gated`, bodies are read no further than to this length, and not kept
    pub gated: std::sync::atomic::AtomicBool,
    pub gate: std::sync::atomic::AtomicUsize,
    /// bytes of gated bodies read, and pieces of bodies of GetObject asked for
    pub read: std::sync::atomic::AtomicUsize,
    pub pulled: Arc<std::sync::atomic::AtomicUsize>,
}

#[derive(Clone, Default)]
pub struct Rec(pub Arc<State>);

fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}

impl Rec {
    pub fn service(&self, auth: bool) -> SharedS3Service {
        let mut s = S3Service::new(self.clone());
        if auth {
            s.set_auth(self.clone());
        }
        s.into_shared()
    }
    pub fn register(&self, ak: &str, sk: &str) {
        lk(&self.0.keys).insert(ak.into(), sk.into());
    }
    /// forget the calls so far, and return them
    pub fn take(&self) -> Vec<Call> {
        lk(&self.0.lookups).clear();
        std::mem::take(&mut *lk(&self.0.calls))
    }
    pub fn trouble(&self, t: Option<(S3ErrorCode, String)>) {
        *lk(&self.0.trouble) = t;
    }
    pub fn lookups(&self) -> Vec<String> {
        lk(&self.0.lookups).clone()
    }
    pub fn script(&self, op: &'static str, a: Answer) {
        lk(&self.0.script).insert(op, a);
    }
    pub fn clear(&self) {
        lk(&self.0.script).clear();
    }
    fn note(&self, op: &'static str, input: Value, has_body: bool) -> usize {
        let mut c = lk(&self.0.calls);
        c.push(Call { op, input, has_body, body: vec![], body_err: None, done: !has_body });
        c.len() - 1
    }
    async fn body(&self, i: usize, body: Option<ByteStream>) -> Result<(), S3Error> {
        let Some(mut b) = body else { return Ok(()) };
        if self.0.lazy.load(std::sync::atomic::Ordering::SeqCst) {
            return Ok(());
        }
        use std::sync::atomic::Ordering::SeqCst;
        let gated = self.0.gated.load(SeqCst);
        let mut failed = None;
        loop {
            while gated && self.0.read.load(SeqCst) >= self.0.gate.load(SeqCst) {
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            }
            let Some(c) = b.next().await else { break };
            match c {
                Ok(c) if gated => {
                    self.0.read.fetch_add(c.len(), SeqCst);
                }
                Ok(c) => {
                    if let Some(call) = lk(&self.0.calls).get_mut(i) {
                        call.body.extend_from_slice(&c);
                    }
                }
                Err(e) => {
                    failed = Some(e.to_string());
                    break;
                }
            }
        }
        if let Some(call) = lk(&self.0.calls).get_mut(i) {
            call.done = true;
            call.body_err = failed.clone();
        }
        match failed {
            None => Ok(()),
            Some(e) => Err(S3Error::new(S3ErrorCode::InternalError, format!("body: {e}"))),
        }
    }
    fn answer(&self, op: &'static str) -> Option<Answer> {
        lk(&self.0.script).get(op).cloned()
    }
    /// the scripted answer, if the output can be deserialized
    fn reply<T: J, E: OpErr>(&self, op: &'static str) -> S3StorageResult<T, E> {
        match self.answer(op) {
            None => Ok(T::from(&Value::Null)),
            Some(Answer::Output(v, _)) => Ok(T::from(&v)),
            Some(a) => Err(error(a)),
        }
    }
}

fn error<E: OpErr>(a: Answer) -> S3StorageError<E> {
    match a {
        Answer::Error(code, None) => S3Error::from_code(code).finish().into(),
        Answer::Error(code, Some(m)) => S3Error::new(code, m).into(),
        Answer::OpError(name, m) => match E::make(name, &m) {
            Some(e) => S3StorageError::Operation(e),
            None => S3Error::new(S3ErrorCode::InternalError, "no such variant").into(),
        },
        Answer::Output(..) => S3Error::new(S3ErrorCode::InternalError, "script").into(),
    }
}

pub trait OpErr: Sized {
    fn make(name: &str, msg: &str) -> Option<Self>;
}
macro_rules! op_err {
    ($($t:ident { $($v:ident),* };)*) => {$(
        impl OpErr for $t {
            #[allow(unused_variables)]
            fn make(name: &str, msg: &str) -> Option<Self> {
                $(if name == stringify!($v) { return Some(Self::$v(msg.to_owned())); })*
                None
            }
        }
    )*};
}
op_err! {
    CompleteMultipartUploadError {};
    CopyObjectError { ObjectNotInActiveTierError };
    CreateBucketError { BucketAlreadyExists, BucketAlreadyOwnedByYou };
    CreateMultipartUploadError {};
    DeleteBucketError {};
    DeleteObjectError {};
    DeleteObjectsError {};
    GetBucketLocationError {};
    GetObjectError { NoSuchKey, InvalidObjectState };
    HeadBucketError { NoSuchBucket };
    HeadObjectError { NoSuchKey };
    ListBucketsError {};
    ListObjectsError { NoSuchBucket };
    ListObjectsV2Error { NoSuchBucket };
    PutObjectError {};
    UploadPartError {};
}
pub const OP_ERRORS: &[(&str, &str)] = &[
    ("CopyObject", "ObjectNotInActiveTierError"),
    ("CreateBucket", "BucketAlreadyExists"),
    ("CreateBucket", "BucketAlreadyOwnedByYou"),
    ("GetObject", "NoSuchKey"),
    ("GetObject", "InvalidObjectState"),
    ("HeadBucket", "NoSuchBucket"),
    ("HeadObject", "NoSuchKey"),
    ("ListObjects", "NoSuchBucket"),
    ("ListObjectsV2", "NoSuchBucket"),
];

/// to and from JSON, without absent fields
pub trait J: Sized {
    fn to(&self) -> Value;
    fn from(v: &Value) -> Self;
}
impl J for String {
    fn to(&self) -> Value {
        json!(self)
    }
    fn from(v: &Value) -> Self {
        v.as_str().unwrap_or_default().to_owned()
    }
}
impl J for i64 {
    fn to(&self) -> Value {
        json!(self)
    }
    fn from(v: &Value) -> Self {
        v.as_i64().unwrap_or_default()
    }
}
impl J for bool {
    fn to(&self) -> Value {
        json!(self)
    }
    fn from(v: &Value) -> Self {
        v.as_bool().unwrap_or_default()
    }
}
impl<T: J> J for Option<T> {
    fn to(&self) -> Value {
        self.as_ref().map_or(Value::Null, J::to)
    }
    fn from(v: &Value) -> Self {
        if v.is_null() { None } else { Some(T::from(v)) }
    }
}
impl<T: J> J for Vec<T> {
    fn to(&self) -> Value {
        Value::Array(self.iter().map(J::to).collect())
    }
    fn from(v: &Value) -> Self {
        v.as_array().map(|a| a.iter().map(T::from).collect()).unwrap_or_default()
    }
}
impl J for HashMap<String, String> {
    fn to(&self) -> Value {
        json!(self)
    }
    fn from(v: &Value) -> Self {
        v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), J::from(v))).collect()).unwrap_or_default()
    }
}
macro_rules! structs {
    ($($t:ident { $($f:ident),* };)*) => {$(
        #[allow(clippy::needless_update)]
        impl J for $t {
            fn to(&self) -> Value {
                let mut m = Map::new();
                $(m.insert(stringify!($f).to_owned(), self.$f.to());)*
                m.retain(|_, v| !v.is_null());
                Value::Object(m)
            }
            fn from(v: &Value) -> Self {
                Self { $($f: J::from(&v[stringify!($f)]),)* ..Self::default() }
            }
        }
    )*};
}
structs! {
        CompleteMultipartUploadRequest { bucket, expected_bucket_owner, key, multipart_upload, request_payer, upload_id };
        CopyObjectRequest { acl, bucket, bucket_key_enabled, cache_control, content_disposition, content_encoding, content_language, content_type,
        copy_source, copy_source_if_match, copy_source_if_modified_since, copy_source_if_none_match, copy_source_if_unmodified_since,
        copy_source_sse_customer_algorithm, copy_source_sse_customer_key, copy_source_sse_customer_key_md5, expected_bucket_owner,
        expected_source_bucket_owner, expires, grant_full_control, grant_read, grant_read_acp, grant_write_acp, key, metadata, metadata_directive,
        object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, request_payer, sse_customer_algorithm, sse_customer_key,
        sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, storage_class, tagging, tagging_directive,
        website_redirect_location };
        CreateBucketRequest { acl, bucket, create_bucket_configuration, grant_full_control, grant_read, grant_read_acp, grant_write, grant_write_acp,
        object_lock_enabled_for_bucket };
        CreateMultipartUploadRequest { acl, bucket, bucket_key_enabled, cache_control, content_disposition, content_encoding, content_language,
        content_type, expected_bucket_owner, expires, grant_full_control, grant_read, grant_read_acp, grant_write_acp, key, metadata,
        object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, request_payer, sse_customer_algorithm, sse_customer_key,
        sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, storage_class, tagging, website_redirect_location };
        DeleteBucketRequest { bucket, expected_bucket_owner };
        DeleteObjectRequest { bucket, bypass_governance_retention, expected_bucket_owner, key, mfa, request_payer, version_id };
        DeleteObjectsRequest { bucket, bypass_governance_retention, delete, expected_bucket_owner, mfa, request_payer };
        GetBucketLocationRequest { bucket, expected_bucket_owner };
        GetObjectRequest { bucket, expected_bucket_owner, if_match, if_modified_since, if_none_match, if_unmodified_since, key, part_number, range,
        request_payer, response_cache_control, response_content_disposition, response_content_encoding, response_content_language,
        response_content_type, response_expires, sse_customer_algorithm, sse_customer_key, sse_customer_key_md5, version_id };
        HeadBucketRequest { bucket, expected_bucket_owner };
        HeadObjectRequest { bucket, expected_bucket_owner, if_match, if_modified_since, if_none_match, if_unmodified_since, key, part_number, range,
        request_payer, sse_customer_algorithm, sse_customer_key, sse_customer_key_md5, version_id };
        ListObjectsRequest { bucket, delimiter, encoding_type, expected_bucket_owner, marker, max_keys, prefix, request_payer };
        ListObjectsV2Request { bucket, continuation_token, delimiter, encoding_type, expected_bucket_owner, fetch_owner, max_keys, prefix,
        request_payer, start_after };
        PutObjectRequest { acl, bucket, bucket_key_enabled, cache_control, content_disposition, content_encoding, content_language, content_length,
        content_md5, content_type, expected_bucket_owner, expires, grant_full_control, grant_read, grant_read_acp, grant_write_acp, key, metadata,
        object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, request_payer, sse_customer_algorithm, sse_customer_key,
        sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, storage_class, tagging, website_redirect_location };
        UploadPartRequest { bucket, content_length, content_md5, expected_bucket_owner, key, part_number, request_payer, sse_customer_algorithm,
        sse_customer_key, sse_customer_key_md5, upload_id };
        CompleteMultipartUploadOutput { bucket, bucket_key_enabled, e_tag, expiration, key, location, request_charged, ssekms_key_id,
        server_side_encryption, version_id };
        CopyObjectOutput { bucket_key_enabled, copy_object_result, copy_source_version_id, expiration, request_charged, sse_customer_algorithm,
        sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, version_id };
        CreateBucketOutput { location };
        CreateMultipartUploadOutput { abort_date, abort_rule_id, bucket, bucket_key_enabled, key, request_charged, sse_customer_algorithm,
        sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, upload_id };
        DeleteObjectOutput { delete_marker, request_charged, version_id };
        DeleteObjectsOutput { deleted, errors, request_charged };
        GetBucketLocationOutput { location_constraint };
        GetObjectOutput { accept_ranges, bucket_key_enabled, cache_control, content_disposition, content_encoding, content_language, content_length,
        content_range, content_type, delete_marker, e_tag, expiration, expires, last_modified, metadata, missing_meta, object_lock_legal_hold_status,
        object_lock_mode, object_lock_retain_until_date, parts_count, replication_status, request_charged, restore, sse_customer_algorithm,
        sse_customer_key_md5, ssekms_key_id, server_side_encryption, storage_class, tag_count, version_id, website_redirect_location };
        HeadObjectOutput { accept_ranges, archive_status, bucket_key_enabled, cache_control, content_disposition, content_encoding, content_language,
        content_length, content_type, delete_marker, e_tag, expiration, expires, last_modified, metadata, missing_meta, object_lock_legal_hold_status,
        object_lock_mode, object_lock_retain_until_date, parts_count, replication_status, request_charged, restore, sse_customer_algorithm,
        sse_customer_key_md5, ssekms_key_id, server_side_encryption, storage_class, version_id, website_redirect_location };
        ListObjectsOutput { common_prefixes, contents, delimiter, encoding_type, is_truncated, marker, max_keys, name, next_marker, prefix };
        ListObjectsV2Output { common_prefixes, contents, continuation_token, delimiter, encoding_type, is_truncated, key_count, max_keys, name,
        next_continuation_token, prefix, start_after };
        PutObjectOutput { bucket_key_enabled, e_tag, expiration, request_charged, sse_customer_algorithm, sse_customer_key_md5,
        ssekms_encryption_context, ssekms_key_id, server_side_encryption, version_id };
        UploadPartOutput { bucket_key_enabled, e_tag, request_charged, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id,
        server_side_encryption };
        ListBucketsOutput { buckets, owner };
        CompletedMultipartUpload { parts };
        CompletedPart { e_tag, part_number };
        Delete { objects, quiet };
        ObjectIdentifier { key, version_id };
        CreateBucketConfiguration { location_constraint };
        CopyObjectResult { e_tag, last_modified };
        DeletedObject { delete_marker, delete_marker_version_id, key, version_id };
        DeleteFailure { code, key, message, version_id };
        Object { e_tag, key, last_modified, owner, size, storage_class };
        Owner { display_name, id };
        Bucket { creation_date, name };
        CommonPrefix { prefix };
}

#[async_trait]
impl S3Storage for Rec {
    async fn complete_multipart_upload(&self, i: CompleteMultipartUploadRequest) -> S3StorageResult<CompleteMultipartUploadOutput, CompleteMultipartUploadError> {
        self.note("CompleteMultipartUpload", J::to(&i), false);
        self.reply("CompleteMultipartUpload")
    }
    async fn copy_object(&self, i: CopyObjectRequest) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
        self.note("CopyObject", J::to(&i), false);
        self.reply("CopyObject")
    }
    async fn create_multipart_upload(&self, i: CreateMultipartUploadRequest) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
        self.note("CreateMultipartUpload", J::to(&i), false);
        self.reply("CreateMultipartUpload")
    }
    async fn create_bucket(&self, i: CreateBucketRequest) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
        self.note("CreateBucket", J::to(&i), false);
        self.reply("CreateBucket")
    }
    async fn delete_bucket(&self, i: DeleteBucketRequest) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
        self.note("DeleteBucket", J::to(&i), false);
        match self.answer("DeleteBucket") {
            Some(a @ (Answer::Error(..) | Answer::OpError(..))) => Err(error(a)),
            _ => Ok(DeleteBucketOutput),
        }
    }
    async fn delete_object(&self, i: DeleteObjectRequest) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
        self.note("DeleteObject", J::to(&i), false);
        self.reply("DeleteObject")
    }
    async fn delete_objects(&self, i: DeleteObjectsRequest) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
        self.note("DeleteObjects", J::to(&i), false);
        self.reply("DeleteObjects")
    }
    async fn get_bucket_location(&self, i: GetBucketLocationRequest) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> {
        self.note("GetBucketLocation", J::to(&i), false);
        self.reply("GetBucketLocation")
    }
    async fn get_object(&self, i: GetObjectRequest) -> S3StorageResult<GetObjectOutput, GetObjectError> {
        self.note("GetObject", J::to(&i), false);
        match self.answer("GetObject") {
            None => Ok(GetObjectOutput { body: Some(ByteStream::from(b"recorded".to_vec())), content_length: Some(8), ..GetObjectOutput::default() }),
            Some(Answer::Output(v, pieces)) => {
                let mut o: GetObjectOutput = J::from(&v);
                if !pieces.is_empty() {
                    let pulled = self.0.pulled.clone();
                    o.body = Some(ByteStream::new(stream::iter(pieces.into_iter().map(move |p| {
                        pulled.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        Ok(Bytes::from(p))
                    }))));
                }
                Ok(o)
            }
            Some(a) => Err(error(a)),
        }
    }
    async fn head_bucket(&self, i: HeadBucketRequest) -> S3StorageResult<HeadBucketOutput, HeadBucketError> {
        self.note("HeadBucket", J::to(&i), false);
        match self.answer("HeadBucket") {
            Some(a @ (Answer::Error(..) | Answer::OpError(..))) => Err(error(a)),
            _ => Ok(HeadBucketOutput),
        }
    }
    async fn head_object(&self, i: HeadObjectRequest) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
        self.note("HeadObject", J::to(&i), false);
        self.reply("HeadObject")
    }
    async fn list_buckets(&self, _: ListBucketsRequest) -> S3StorageResult<ListBucketsOutput, ListBucketsError> {
        self.note("ListBuckets", json!({}), false);
        self.reply("ListBuckets")
    }
    async fn list_objects(&self, i: ListObjectsRequest) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
        self.note("ListObjects", J::to(&i), false);
        self.reply("ListObjects")
    }
    async fn list_objects_v2(&self, i: ListObjectsV2Request) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
        self.note("ListObjectsV2", J::to(&i), false);
        self.reply("ListObjectsV2")
    }
    async fn put_object(&self, i: PutObjectRequest) -> S3StorageResult<PutObjectOutput, PutObjectError> {
        let v = J::to(&i);
        let n = self.note("PutObject", v, i.body.is_some());
        self.body(n, i.body).await?;
        self.reply("PutObject")
    }
    async fn upload_part(&self, i: UploadPartRequest) -> S3StorageResult<UploadPartOutput, UploadPartError> {
        let v = J::to(&i);
        let n = self.note("UploadPart", v, i.body.is_some());
        self.body(n, i.body).await?;
        self.reply("UploadPart")
    }
}

#[async_trait]
impl S3Auth for Rec {
    async fn get_secret_access_key(&self, access_key_id: &str) -> Result<String, S3AuthError> {
        lk(&self.0.lookups).push(access_key_id.to_owned());
        tokio::task::yield_now().await;
        if let Some((code, text)) = lk(&self.0.trouble).clone() {
            return Err(S3AuthError::Other(S3Error::new(code, text)));
        }
        lk(&self.0.keys).get(access_key_id).cloned().ok_or(S3AuthError::NotSignedUp)
    }
}
