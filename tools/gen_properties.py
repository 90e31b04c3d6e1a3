#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

FS = "src/storages/fs.rs"
p("C01", "A stored object reads back byte for byte under its own key",
  "After a successful upload (PutObject with any body framing, or CopyObject, CompleteMultipartUpload or a POST form), GetObject and HeadObject of that key report exactly the uploaded bytes and length, and the ETag returned by the upload and by GetObject is the quoted hex MD5 of those bytes, until the next successful mutation of that same key. "
  "A key whose newest mutation is a delete, or that was never written, answers NoSuchKey; an upload that declares a Content-MD5 that is not the digest of its body is refused. Nothing done to one key changes what another key (case-different, prefix-related, percent-encoded, non-ASCII, up to 1024 bytes) returns.",
  ["histories", "inputs"],
  "All sequences of successful operations over all keys made of non-empty path segments other than . and .. (each at most 255 bytes), all bodies (empty, one byte, around 4 KiB / 64 KiB / 4 MiB buffer edges, any binary content) and all ways the body is split into transport chunks.",
  "The service tests write one small object under one key and read it once; they cannot cover all keys, sizes, chunk splits and operation sequences.",
  [FS, "src/ops/put_object.rs", "src/ops/get_object.rs", "src/ops/head_object.rs", "src/data_structures/bytes_stream.rs", "src/utils/body.rs"],
  [("object path resolution", FS + " get_object_path"), ("body to file copy", FS + " copy_bytes"), ("file to body stream", "src/data_structures/bytes_stream.rs BytesStream")])

p("C02", "User metadata belongs to exactly the object version it was uploaded with",
  "The x-amz-meta-* headers returned by GetObject and HeadObject are exactly those (names and values, nothing more and nothing less) supplied with the upload that produced the current version of the object: overwriting without metadata, deleting and re-creating, deleting the bucket, copying from a source without metadata, and completing a multipart upload never leave or resurrect metadata of an earlier version. "
  "CopyObject carries the source's metadata (or that of the request, with x-amz-metadata-directive: REPLACE), and CompleteMultipartUpload the metadata given when the upload was initiated.",
  ["histories", "inputs"],
  "All sequences of put, form upload, copy, multipart, delete, bulk delete and bucket delete/re-create over all metadata maps expressible as HTTP headers and all keys.",
  "Tests never overwrite, copy or re-create an object that had metadata; which stale side file is picked up depends on the whole history of the key.",
  [FS, "src/ops/put_object.rs", "src/ops/create_multipart_upload.rs", "src/utils/response.rs"],
  [("metadata side file", FS + " get_metadata_path / load_metadata / save_metadata"), ("metadata header emission", "src/utils/response.rs set_metadata_headers")])

p("C03", "A range read returns exactly the requested slice of the object",
  "For every object and every syntactically valid single Range (first-last, first-, -suffix) GetObject either returns exactly the bytes of the object in that range clipped to its end, with status 206, a Content-Length equal to the bytes sent and a matching Content-Range, or, when no byte of the object lies in the range, answers 416 InvalidRange. "
  "A malformed Range header never yields part of the object.",
  ["inputs"],
  "All object sizes and all range boundaries relative to them (0, size-1, size, size+1, internal buffer multiples, u64 extremes), all malformed range strings.",
  "No test issues a range request against stored data; only the header parser is unit-tested on seven strings.",
  [FS, "src/headers/range.rs", "src/ops/get_object.rs", "src/data_structures/bytes_stream.rs"],
  [("range resolution", FS + " get_object"), ("range parser", "src/headers/range.rs from_header_str"), ("limited stream", "src/data_structures/bytes_stream.rs")])

p("C04", "Listings name exactly the live objects and buckets",
  "ListObjects and ListObjectsV2 of a bucket return exactly one entry for each object currently in it (other than directory objects, whose key ends in a slash) whose key starts with the requested prefix and nothing else (no temporary, metadata, part or other bucket's entries), with the object's exact key (percent-encoded if the request asks for encoding-type=url and the answer says so) and size, in ascending UTF-8 byte order, KeyCount equal to the number of entries, and both versions agreeing; a bucket that does not exist answers NoSuchBucket. "
  "ListBuckets returns exactly the existing buckets, each once.",
  ["histories", "inputs"],
  "All histories of uploads, overwrites, copies, multipart uploads (pending, completed, failed), deletes and bucket operations, all key shapes (nesting, XML-special and non-ASCII characters) and all prefixes.",
  "Tests list an empty or single-object bucket; ordering, prefix filtering and residue depend on the whole key set and history.",
  [FS, "src/ops/list_objects.rs", "src/ops/list_objects_v2.rs", "src/ops/list_buckets.rs"],
  [("directory walk and sort", FS + " list_objects, list_objects_v2"), ("bucket scan", FS + " list_buckets")])

p("C05", "Deletes remove exactly the named objects and report them truthfully",
  "DeleteObject answers 204 whether or not the key exists in an existing bucket and removes that object and nothing else (no other key, including keys of which it is a prefix). "
  "DeleteObjects removes every named object, reports each requested entry exactly once as deleted or as an error (only errors in quiet mode), names as deleted only keys that are gone afterwards, and leaves every other object untouched; keys are taken literally from the request document, including surrounding whitespace and escaped characters.",
  ["histories", "inputs"],
  "All key sets, all request documents mixing present, absent, duplicate, nested and directory-like keys, in any order and of any length up to 1000.",
  "Tests delete one or two existing objects; partial failure, missing keys and prefix relations are never sampled.",
  [FS, "src/ops/delete_object.rs", "src/ops/delete_objects.rs"],
  [("single delete", FS + " delete_object"), ("bulk delete", FS + " delete_objects"), ("request document parser", "src/ops/delete_objects.rs xml")])

p("C06", "Buckets exist only by creation and are isolated from each other",
  "A bucket exists (HeadBucket, GetBucketLocation, ListBuckets, listings) exactly from a successful CreateBucket to the next successful DeleteBucket; creating an existing bucket answers 409 and leaves its contents alone, and of several concurrent creations exactly one succeeds. "
  "Every operation that needs a missing bucket answers 404 and creates nothing: in particular no upload, copy or multipart completion brings a bucket into existence. Deleting a bucket affects only that bucket's objects, and a re-created bucket starts empty.",
  ["histories", "schedules"],
  "All histories of bucket and object operations over several buckets with related names (prefixes, dots, dashes), including concurrent creations and uploads racing a bucket deletion.",
  "Tests create and delete one bucket sequentially and never upload to a missing bucket.",
  [FS, "src/ops/create_bucket.rs", "src/ops/delete_bucket.rs", "src/ops/head_bucket.rs", "src/path.rs"],
  [("bucket path", FS + " get_bucket_path"), ("create/delete", FS + " create_bucket, delete_bucket")])

p("C07", "CopyObject duplicates the source and never damages it",
  "A successful CopyObject leaves the destination with exactly the source's bytes (as one complete version) and metadata, returns the ETag of those bytes, and leaves the source unchanged, for every pair of source and destination including the same key, nested destination keys, keys with percent-encoded or non-ASCII characters in x-amz-copy-source and an optional leading slash. "
  "A copy whose source or bucket is missing answers 404 and changes nothing, and the copy is independent: later changes to either object do not affect the other.",
  ["histories", "inputs"],
  "All source/destination pairs (same or different buckets, same key, nested, missing), all encodings of the copy source header, all later operation sequences.",
  "One test copies one ASCII key to one sibling; self-copy, nested destinations and encoded sources are not reached.",
  [FS, "src/ops/copy_object.rs", "src/headers/amz_copy_source.rs"],
  [("copy", FS + " copy_object"), ("copy source parser", "src/headers/amz_copy_source.rs from_header_str")])

p("C08", "Completing a multipart upload publishes exactly the listed parts in order",
  "A successful CompleteMultipartUpload makes the object exactly the concatenation, in the listed order, of the newest successfully uploaded content of each listed part, whatever the order, size, concurrency or re-upload of the parts, and UploadPart returns the quoted MD5 of the part. "
  "A completion that names a part that was not uploaded, a wrong ETag, a wrong order or no parts, or an unknown, already completed or foreign upload id (one initiated for another bucket or key), is refused with a 4xx error, changes no object and leaves the upload completable. Parts never appear as objects, and parts of different uploads never mix.",
  ["histories", "inputs"],
  "All part counts, sizes, upload orders, re-uploads and interleaved uploads to the same or different keys, and all malformed completion requests.",
  "No test performs a multipart upload at all.",
  [FS, "src/ops/upload_part.rs", "src/ops/create_multipart_upload.rs", "src/ops/complete_multipart_upload.rs"],
  [("part files", FS + " upload_part"), ("assembly", FS + " complete_multipart_upload")])

p("C09", "No request reaches files outside the bucket it names",
  "Whatever bucket, key, copy source, upload id, part number, form field or document a client sends, the server reads, creates, changes or deletes only the file tree of the named bucket, plus its own private side files in the root directory, and never a file outside the configured root, another bucket's object, or a side file through an object key. "
  "Requests whose key or upload id would resolve elsewhere are refused with a 4xx error.",
  ["inputs"],
  "All byte strings a client can place in the path, query, headers, form fields and XML bodies (traversal sequences raw and percent-encoded, absolute paths, separators in upload ids, dot names).",
  "Tests use benign names only; containment is a claim about every string.",
  [FS, "src/path.rs", "src/service.rs", "src/headers/amz_copy_source.rs"],
  [("virtual root", FS + " get_object_path, get_bucket_path"), ("part path", FS + " upload_part, complete_multipart_upload"), ("path parsing", "src/path.rs try_from_path")])

p("C10", "Concurrent requests on objects are atomic",
  "Any concurrent execution of uploads, copies, multipart completions, deletes, reads and heads is linearizable per object (a copy counting as a read of its source followed by a write of its destination): every read returns the complete content, length, ETag and metadata of a single version (never a mixture, a prefix or an empty file), an acknowledged write is seen by every later read, and no acknowledged write is lost or resurrected. "
  "A read in progress keeps delivering the version it started with whatever happens to the object meanwhile, and a listing taken concurrently never fails, names every object that was present and unmodified throughout, and names none that was absent throughout.",
  ["schedules"],
  "All interleavings of concurrent client requests on shared keys, including slow or stalled uploads and downloads and file-system calls delayed at arbitrary points.",
  "All existing tests are sequential.",
  [FS, "src/service.rs", "src/data_structures/bytes_stream.rs"],
  [("object write", FS + " put_object, copy_object, complete_multipart_upload"), ("object read", FS + " get_object, get_md5_sum")])

p("C11", "A request that fails or only reads changes nothing",
  "A request answered with an error (other than for a failing disk, which is C13's), and an upload whose body ends early, breaks off or fails verification, leaves every bucket, object and metadata exactly as before: no partial object, no truncated or vanished old version, no new key. A request whose client disconnects after sending all of it takes effect completely or not at all. "
  "Reads, heads and listings never change anything, and after any such request no temporary file remains.",
  ["inputs", "fault_sequences"],
  "All operations, all error causes (bad signature, bad chunk signature, malformed body, missing source, invalid names, wrong digests), all points at which a body can end or a connection can break.",
  "Tests never abort an upload and check the error reply at most, not the store afterwards.",
  [FS, "src/streams/aws_chunked_stream.rs", "src/streams/multipart.rs", "src/utils/body.rs"],
  [("body to file", FS + " put_object, upload_part"), ("body error propagation", "src/utils/body.rs")])

p("C12", "A crash at any point leaves every object whole",
  "If the server process dies at any instant, then after restart on the same directory every object reads back as a complete version: acknowledged uploads, copies, completions and deletes have taken effect, and an unacknowledged one has either taken effect completely or not at all. "
  "No object's bytes are torn, mixed or lost, the metadata attached to them is that of the same version or none at all (never another version's), listings show no debris of the interrupted request, and the server keeps working normally on that directory.",
  ["crash_points"],
  "Every point between two file-system effects of every mutating operation, starting from stores with and without a previous version of the object.",
  "No test kills the server; a crash point is not an input a unit test can choose.",
  [FS],
  [("commit of object and metadata files", FS + " put_object, copy_object, complete_multipart_upload, delete_object, delete_bucket")])

p("C13", "An input/output failure is reported and never corrupts an object",
  "When a file-system call made for a request fails (no space, I/O error, permission, short write), the client never receives a success answer for an effect that did not happen: either the request is answered with an error or its body visibly breaks off. "
  "After the failure every object not addressed by the request is unchanged and the addressed one has the complete content of the old or the new version (never another version's metadata), and once the failure stops the server serves all requests normally.",
  ["fault_sequences"],
  "Every file-system call of every operation, failing with each of several error codes, once or persistently.",
  "Tests run on a healthy file system only.",
  [FS, "src/internal_macros.rs"],
  [("error mapping", "src/internal_macros.rs trace_try"), ("writers", FS + " copy_bytes")])

p("C14", "Only requests signed with a registered secret reach the storage",
  "With an authentication provider configured, a request reaches the storage only if it carries a signature computed with the secret key registered for its access key over exactly this method, path, query, signed headers (including every x-amz-* header present), body hash, date and region; changing, adding or removing any of those after signing, using a wrong or unknown key, or sending no signature, gets a 4xx answer and no storage operation is invoked. "
  "This holds for header, presigned-query and POST-form signatures, and the provider is consulted for the claimed access key of every request.",
  ["inputs"],
  "All requests and all single and combined alterations of a validly signed request in every signature scheme.",
  "Unit tests compare a few known-good signatures with constants; soundness is about all the requests that must be rejected.",
  ["src/service.rs", "src/signature_v4.rs", "src/headers/authorization_v4.rs", "src/auth.rs", "src/data_structures/ordered_headers.rs"],
  [("signature check", "src/service.rs check_signature, check_header_auth, check_presigned_url, check_post_signature"), ("canonical request", "src/signature_v4.rs create_canonical_request")])

p("C15", "Every correctly signed request is accepted",
  "A request signed as AWS Signature Version 4 specifies, by a registered key, is accepted and executed for every method, key (spaces, reserved, percent-encoded and non-ASCII characters), query parameter set, header set, payload kind (empty, single chunk, unsigned, aws-chunked) and presigned URL that has not expired. "
  "Acceptance does not depend on the order in which headers or query parameters are sent or on how the body is split.",
  ["inputs"],
  "All well-formed requests as signed by an independent SigV4 implementation.",
  "Unit tests check four documented example signatures with plain ASCII paths.",
  ["src/signature_v4.rs", "src/service.rs", "src/utils/crypto.rs", "src/headers/amz_date.rs"],
  [("canonical request", "src/signature_v4.rs create_canonical_request, create_presigned_canonical_request"), ("uri encoding", "src/signature_v4.rs uri_encode")])

p("C16", "A signed chunked upload delivers exactly the signed payload or fails",
  "For an aws-chunked upload, the object stored on success is exactly the concatenation of the signed chunks up to the signed final empty chunk, independent of how the transport splits the bytes and of chunk sizes. "
  "If the stream is altered, reordered, duplicated, truncated anywhere (including at a chunk boundary) or malformed, the upload fails, nothing is stored and no altered payload byte is delivered to the storage.",
  ["inputs", "fault_sequences"],
  "All chunk sizes and transport splits; all truncation points; all single-byte corruptions and chunk-level rearrangements.",
  "Two unit tests decode one fixed three-chunk stream fed as one or a few pieces.",
  ["src/streams/aws_chunked_stream.rs", "src/service.rs"],
  [("chunk decoder", "src/streams/aws_chunked_stream.rs AwsChunkedStream"), ("chunk signature chain", "src/signature_v4.rs create_chunk_string_to_sign")])

p("C17", "A presigned URL works only within its validity period",
  "A validly presigned URL is honoured from its signing time until X-Amz-Expires seconds later and at no other time: after that moment, or with an expiry over seven days, it is refused with a 403 or 400 answer and no storage operation is invoked.",
  ["inputs"],
  "All signing times, expiry values and request times.",
  "The one presigned unit test checks a signature constant from 2013 and never the clock.",
  ["src/service.rs", "src/signature_v4.rs"],
  [("presigned check", "src/service.rs check_presigned_url"), ("expiry field", "src/signature_v4.rs PresignedUrl")])

p("C18", "A POST form upload stores exactly the submitted file",
  "A POST form upload with a valid policy signature stores, under the key given in the form, exactly the bytes of its file field, with the form's x-amz-meta-* fields as metadata, whatever the file contains (line breaks, boundary look-alikes, empty), whatever fields precede it, and however the transport splits the body. "
  "A form that is malformed, truncated before its closing boundary, or lacks a required field is refused and stores nothing.",
  ["inputs"],
  "All forms, file contents adversarial to the boundary search, and all splits of the body into chunks.",
  "Two unit tests parse one fixed form with a few splits.",
  ["src/streams/multipart.rs", "src/ops/put_object.rs", "src/service.rs"],
  [("form parser", "src/streams/multipart.rs transform_multipart, try_parse"), ("file stream", "src/streams/multipart.rs FileStream")])

p("C19", "Each request performs exactly the one operation it names",
  "Every request leads to at most one storage call, of the operation its method, path level and sub-resource parameters name, with bucket, key, body and every recognised query parameter and header passed on unaltered. "
  "A request for an operation the server does not offer (an unknown method, or a sub-resource such as acl, tagging, policy, lifecycle, versioning, AbortMultipartUpload or UploadPartCopy) is refused with an error and never executed as a different operation.",
  ["inputs"],
  "All combinations of method, path level, query parameters, copy-source and content type headers, parameter values and encodings.",
  "Each test sends one well-formed request for a supported operation; mis-dispatch shows on combinations.",
  ["src/ops.rs", "src/service.rs", "src/ops/put_object.rs", "src/ops/delete_bucket.rs", "src/ops/copy_object.rs", "src/data_structures/ordered_qs.rs"],
  [("handler table", "src/ops.rs setup_handlers"), ("match predicates", "src/ops/*.rs is_match"), ("request extraction", "src/ops/*.rs extract")])

p("C20", "Every storage result reaches the client unaltered",
  "For every operation, each field of the result the storage returns appears in the HTTP response exactly once, in the header or XML element the S3 API assigns to it and with a value that parses back to the original (XML-special, non-ASCII and boundary values included; characters which XML 1.0 cannot express as character references, as in S3), and absent fields do not appear. "
  "Every storage error reaches the client as a well-formed XML error document with that code and message and the HTTP status the S3 API defines for the code.",
  ["inputs"],
  "All result values of all sixteen operations and all error codes.",
  "Tests see only the few fields the file-system storage fills in, with benign values.",
  ["src/output.rs", "src/utils/response.rs", "src/utils/xml.rs", "src/errors.rs", "src/ops/get_object.rs", "src/ops/list_objects.rs"],
  [("response encoding", "src/ops/*.rs try_into_response"), ("error encoding", "src/errors.rs, src/output.rs")])

p("C21", "Every request gets a well-formed answer and never stops the server",
  "Whatever bytes arrive as a request (method, path, query, headers, body, signatures, XML, forms, chunk framing), processing it terminates with exactly one well-formed HTTP response whose status is valid and whose error body, if any, is a parseable XML error document; it never panics, hangs or aborts the connection of a well-formed HTTP request. "
  "No request changes how later requests are answered other than through the operation it performs: the server goes on serving correctly after any sequence of hostile requests.",
  ["inputs", "histories"],
  "All request byte streams, including grammar-aware mutations of valid requests for every operation and scheme, with and without authentication.",
  "Tests send well-formed requests only.",
  ["src/service.rs", "src/ops.rs", "src/path.rs", "src/headers/authorization_v4.rs", "src/streams/multipart.rs", "src/streams/aws_chunked_stream.rs"],
  [("request pipeline", "src/service.rs handle"), ("extraction panics", "src/ops.rs unwrap_*")])

p("C22", "Uploads and downloads stream in bounded memory and leave no residue",
  "The memory used to serve an upload or download does not grow with the size of the object (uploads without a header signature or with an aws-chunked one, form files, copies, multipart assembly, whole and ranged reads): it stays below a constant plus the bytes of one signed chunk, because data moves only as fast as the slower side accepts it. "
  "Once a request has finished, by success, error or disconnect, it holds no open file, task, memory or temporary file any more, however many requests were served.",
  ["inputs", "histories"],
  "All object sizes, slow producers and consumers, and long sequences of completed, failed and abandoned requests.",
  "Tests use bodies of a few bytes and end after one request.",
  [FS, "src/data_structures/bytes_stream.rs", "src/streams/aws_chunked_stream.rs", "src/streams/multipart.rs"],
  [("streaming body", "src/utils/body.rs transform_body_stream"), ("bounded buffers", "src/data_structures/bytes_stream.rs")])

p("C23", "Names are admitted by the S3 naming rules and nothing else",
  "A request whose bucket name breaks the S3 naming rules (3 to 63 lower-case letters, digits, dots and dashes, starting and ending with a letter or digit, not an IP address, not starting with xn--), whose key is longer than 1024 bytes, or whose path is not valid percent-encoded UTF-8, is refused with a 4xx error, in the path, in copy sources and in forms alike; for a name in the path or a form no storage operation is invoked, for one in a copy source nothing is stored. "
  "Every other name is accepted and reaches the storage exactly as the client wrote it after percent-decoding.",
  ["inputs"],
  "All strings in bucket and key position, under all percent-encodings.",
  "The unit tests check a dozen fixed names.",
  ["src/path.rs", "src/service.rs", "src/headers/amz_copy_source.rs", "src/ops/put_object.rs"],
  [("name rules", "src/path.rs check_bucket_name, check_key, try_from_path")])

p("C24", "The server binary serves its root directory under its configured keys",
  "The s3-server program serves exactly the directory, address and port given on its command line; with an access key and a secret key configured it refuses every request not signed with them and accepts those that are, and without keys it serves unsigned requests. "
  "It refuses to start when only one of the two keys, a missing root directory or an unusable address is given, keeps all data across a restart or kill, and serves many simultaneous and keep-alive connections with each answer matching its own request.",
  ["configurations", "histories"],
  "All combinations of options, restarts at any time, all numbers of concurrent and pipelined connections.",
  "No test starts the binary.",
  ["src/bin/s3-server.rs", "src/auth.rs", "src/service.rs"],
  [("configuration", "src/bin/s3-server.rs main"), ("per-connection service", "src/service.rs SharedS3Service")])

p("C25", "A POST form upload is confined to what its signed policy allows",
  "A POST form upload is executed only while its signed policy document has not expired and only if the form satisfies every condition the policy states (exact matches, prefixes and the permitted content length range). "
  "A form that violates its policy is refused with a 4xx answer and no storage operation is completed.",
  ["inputs"],
  "All policies and all forms, including forms altered after the policy was signed.",
  "No test evaluates a policy.",
  ["src/service.rs", "src/ops/put_object.rs"],
  [("POST signature check", "src/service.rs check_post_signature")])

p("C26", "The times reported for objects and buckets are true and agree",
  "The Last-Modified time which GetObject, HeadObject and both listings report for an object lies between the request that uploaded its current version (for a multipart upload, its initiation) and that request's answer, is the same in all of them (to the second, in HTTP headers as an IMF-fixdate in GMT), and does not change until the object is next written: reads, refused requests, other objects and restarts leave it alone. "
  "The result of CopyObject reports the time of the new object, not of its source, and ListBuckets reports for each bucket when it was created, whatever is stored in it later. This holds in any local time zone of the server.",
  ["histories", "schedules"],
  "All histories of uploads, copies, deletions, re-creations and restarts, at any pace.",
  "The unit tests look at no times.",
  ["src/storages/fs.rs", "src/utils/time.rs", "src/ops/get_object.rs", "src/ops/head_object.rs"],
  [("times of objects", "src/storages/fs.rs get_object, head_object, list_objects, copy_object"), ("creation date", "src/storages/fs.rs list_buckets"), ("formats", "src/utils/time.rs")])

p("C27", "Secret keys and right signatures are never disclosed",
  "Whatever requests are sent and whatever log level is configured, the secret key, or a signing key derived from it, never appears in an answer or in anything the s3-server program writes to its log, and the answer to a request with a wrong signature (in the header, the query, a form or a chunk) never reveals the signature which would have been right. "
  "No answer, not even after a failure of the file system, tells where on the server the root directory is.",
  ["inputs", "configurations"],
  "All requests, failures and log levels.",
  "No test looks at error messages or logs for secrets.",
  ["src/auth.rs", "src/service.rs", "src/errors.rs", "src/bin/s3-server.rs", "src/signature_v4.rs", "src/streams/aws_chunked_stream.rs"],
  [("credentials", "src/auth.rs SimpleAuth"), ("error answers", "src/errors.rs into_xml_response"), ("log", "src/service.rs hyper_call, src/bin/s3-server.rs main")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
