// Stand-in for minio-cpp 0.3.0, which is not available offline.
//
// It implements the subset of the client interface the library uses (and a few neighbours) on top of an in-process
// object store, fakes3::Server, which follows the S3 rules a client can observe: an object becomes visible only when a
// put or a complete succeeds, parts are numbered 1..10000, every part but the last holds at least 5 MiB, a complete
// must name uploaded parts in ascending order with their etags.  Every request is recorded, and requests can be failed
// by a plan, so a driver can compare what the code asked for with what the specification allows.
#pragma once

#include <miniocpp/types.h>
#include <miniocpp/utils.h>

#include <cstdint>
#include <functional>
#include <istream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>

namespace fakes3 {
struct Request
{
    int seq = 0;             // order in which the server took the request
    std::string op;          // ListBuckets, BucketExists, StatObject, PutObject, CreateUpload, UploadPart, ...
    std::string bucket, key;
    std::string upload_id;
    int part = 0;
    size_t size = 0;
    int conn = 0;            // the client (connection) the request came over
    bool ok = true;
    bool refused = false;    // not failed by the plan, but against the rules
};

struct Upload
{
    std::string bucket, key;
    std::map<unsigned, std::string> parts; // number -> data
    std::map<unsigned, std::string> etags;
    bool done = false, aborted = false;
};

// One process-wide server.  All access under `mutex`.
struct Server
{
    std::mutex mutex;
    std::map<std::string, std::map<std::string, std::string>> buckets; // bucket -> key -> data
    std::map<std::string, Upload> uploads;
    std::vector<Request> log;
    int next_upload = 0, next_seq = 0, next_conn = 0;
    int busy_violations = 0; // two requests at once over the same client
    int in_flight = 0, max_in_flight = 0;
    std::map<std::string, int> op_count;
    // Decides whether to fail a request (called under the mutex); n counts requests with this op, from 1.
    std::function<bool(const Request&, int n)> fail;
    // Called without the mutex at the start of every request (scheduling points, crash points).
    std::function<void(const char* op)> on_request;
    // true when a failing CreateMultipartUpload should also return an empty upload id (it always does)
    static Server& get();
    void reset();
};

// The server's own allocations are not the library's.
struct Quiet
{
    static void (*pause)(int);
    Quiet() { if (pause) pause(1); }
    ~Quiet() { if (pause) pause(-1); }
    Quiet(const Quiet&) = delete;
};
} // namespace fakes3

namespace minio::creds {
struct Provider
{
    virtual ~Provider() = default;
};
class StaticProvider : public Provider
{
  public:
    StaticProvider(std::string access_key, std::string secret_key, std::string session_token = {})
      : access_key(std::move(access_key))
      , secret_key(std::move(secret_key))
    {
    }
    std::string access_key, secret_key;
};
} // namespace minio::creds

namespace minio::error {
class Error
{
  public:
    Error() = default;
    explicit Error(std::string msg)
      : msg_(std::move(msg))
    {
    }
    explicit operator bool() const { return !msg_.empty(); }
    const std::string& String() const { return msg_; }

  private:
    std::string msg_;
};
} // namespace minio::error

namespace minio::s3 {
struct BaseUrl
{
    bool https = true;
    std::string host, region;
    unsigned port = 0;
    bool aws_s3 = false, virtual_style = false;
    BaseUrl() = default;
    explicit BaseUrl(std::string http_url, bool https = true, std::string region = {})
      : https(https)
      , host(std::move(http_url))
      , region(std::move(region))
    {
    }
    explicit operator bool() const { return !host.empty(); }
};

struct BaseArgs
{
    std::string region;
};
struct BucketArgs : BaseArgs
{
    std::string bucket;
};
struct ObjectArgs : BucketArgs
{
    std::string object;
};
using ListBucketsArgs = BaseArgs;
using BucketExistsArgs = BucketArgs;
using MakeBucketArgs = BucketArgs;
struct RemoveObjectArgs : ObjectArgs
{
    std::string version_id;
};
struct StatObjectArgs : ObjectArgs
{
    std::string version_id;
};
struct CreateMultipartUploadArgs : ObjectArgs
{
};
struct AbortMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
};
struct UploadPartArgs : ObjectArgs
{
    std::string upload_id;
    unsigned part_number = 0;
    std::string_view data;
};
struct PutObjectArgs : ObjectArgs
{
    std::istream& stream;
    long object_size;
    long part_size;
    PutObjectArgs(std::istream& stream, long object_size, long part_size)
      : stream(stream)
      , object_size(object_size)
      , part_size(part_size)
    {
    }
};

struct Response
{
    int status_code = 200;
    std::string err;
    Response() = default;
    explicit operator bool() const { return err.empty(); }
    error::Error Error() const { return err.empty() ? error::Error() : error::Error(err); }
};
struct ListBucketsResponse : Response
{
    std::list<Bucket> buckets;
};
struct BucketExistsResponse : Response
{
    bool exist = false;
};
struct StatObjectResponse : Response
{
    std::string bucket_name, object_name, etag;
    size_t size = 0;
};
struct PutObjectResponse : Response
{
    std::string etag, version_id;
};
using UploadPartResponse = PutObjectResponse;
struct CompleteMultipartUploadResponse : PutObjectResponse
{
    std::string location;
};
struct CreateMultipartUploadResponse : Response
{
    std::string upload_id;
};
using AbortMultipartUploadResponse = Response;
using RemoveObjectResponse = Response;
using MakeBucketResponse = Response;

class Client
{
  public:
    explicit Client(BaseUrl& base_url, creds::Provider* provider = nullptr);
    virtual ~Client() = default;

    ListBucketsResponse ListBuckets();
    ListBucketsResponse ListBuckets(ListBucketsArgs) { return ListBuckets(); }
    BucketExistsResponse BucketExists(BucketExistsArgs args);
    StatObjectResponse StatObject(StatObjectArgs args);
    PutObjectResponse PutObject(PutObjectArgs args);
    RemoveObjectResponse RemoveObject(RemoveObjectArgs args);
    CreateMultipartUploadResponse CreateMultipartUpload(CreateMultipartUploadArgs args);
    UploadPartResponse UploadPart(UploadPartArgs args);
    CompleteMultipartUploadResponse CompleteMultipartUpload(CompleteMultipartUploadArgs args);
    AbortMultipartUploadResponse AbortMultipartUpload(AbortMultipartUploadArgs args);

  private:
    int id_;
    bool busy_ = false;
    struct Busy;
    bool begin_(fakes3::Request& r); // true: go on; false: fail the request
};
} // namespace minio::s3
