#include <miniocpp/client.h>

#include <iterator>

namespace fakes3 {
void (*Quiet::pause)(int) = nullptr;

Server&
Server::get()
{
    static Server* s = new Server; // never destroyed: clients may outlive main
    return *s;
}

void
Server::reset()
{
    std::scoped_lock lock(mutex);
    buckets.clear();
    uploads.clear();
    log.clear();
    op_count.clear();
    next_upload = next_seq = next_conn = 0;
    busy_violations = in_flight = max_in_flight = 0;
    fail = nullptr;
    on_request = nullptr;
}

static std::string
etag_of(const std::string& data)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : data) {
        h = (h ^ c) * 1099511628211ull;
    }
    char buf[32];
    snprintf(buf, sizeof buf, "%016llx", (unsigned long long)h);
    return buf;
}
} // namespace fakes3

namespace minio::s3 {
using fakes3::Request;
using fakes3::Server;

struct Client::Busy
{
    Client* c;
    explicit Busy(Client* c)
      : c(c)
    {
    }
    ~Busy()
    {
        std::scoped_lock lock(Server::get().mutex);
        c->busy_ = false;
        --Server::get().in_flight;
    }
};

Client::Client(BaseUrl&, creds::Provider*)
{
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    id_ = ++s.next_conn;
}

// Registers the request.  The caller creates a Busy after this returns.
bool
Client::begin_(Request& r)
{
    auto& s = Server::get();
    {
        std::scoped_lock lock(s.mutex);
        if (busy_) {
            ++s.busy_violations;
        }
        busy_ = true;
        s.max_in_flight = std::max(s.max_in_flight, ++s.in_flight);
    }
    if (s.on_request) {
        s.on_request(r.op.c_str());
    }
    std::scoped_lock lock(s.mutex);
    r.conn = id_;
    r.seq = ++s.next_seq;
    const int n = ++s.op_count[r.op];
    r.ok = !(s.fail && s.fail(r, n));
    s.log.push_back(r);
    return r.ok;
}

#define FAIL(resp, msg)                                                                                               \
    do {                                                                                                               \
        (resp).err = msg;                                                                                              \
        (resp).status_code = 500;                                                                                      \
        return resp;                                                                                                   \
    } while (0)

// The request was well-formed for begin_() but the store refuses it.
#define REFUSE(resp, msg)                                                                                             \
    do {                                                                                                               \
        for (auto it = s.log.rbegin(); it != s.log.rend(); ++it) {                                                     \
            if (it->seq == r.seq) {                                                                                    \
                it->ok = false, it->refused = true;                                                                    \
                break;                                                                                                 \
            }                                                                                                          \
        }                                                                                                              \
        (resp).err = msg;                                                                                              \
        (resp).status_code = 400;                                                                                      \
        return resp;                                                                                                   \
    } while (0)

ListBucketsResponse
Client::ListBuckets()
{
    fakes3::Quiet quiet;
    ListBucketsResponse resp;
    Request r{ .op = "ListBuckets" };
    const bool ok = begin_(r);
    Busy busy(this);
    if (!ok) {
        FAIL(resp, "injected");
    }
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    for (auto& [name, _] : s.buckets) {
        resp.buckets.push_back({ name });
    }
    return resp;
}

BucketExistsResponse
Client::BucketExists(BucketExistsArgs args)
{
    fakes3::Quiet quiet;
    BucketExistsResponse resp;
    Request r{ .op = "BucketExists", .bucket = args.bucket };
    const bool ok = begin_(r);
    Busy busy(this);
    if (!ok) {
        FAIL(resp, "injected");
    }
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    resp.exist = s.buckets.count(args.bucket) > 0;
    return resp;
}

StatObjectResponse
Client::StatObject(StatObjectArgs args)
{
    fakes3::Quiet quiet;
    StatObjectResponse resp;
    Request r{ .op = "StatObject", .bucket = args.bucket, .key = args.object };
    const bool ok = begin_(r);
    Busy busy(this);
    if (!ok) {
        FAIL(resp, "injected");
    }
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    auto b = s.buckets.find(args.bucket);
    if (b == s.buckets.end() || !b->second.count(args.object)) {
        FAIL(resp, "NoSuchKey");
    }
    resp.bucket_name = args.bucket;
    resp.object_name = args.object;
    resp.size = b->second[args.object].size();
    resp.etag = fakes3::etag_of(b->second[args.object]);
    return resp;
}

PutObjectResponse
Client::PutObject(PutObjectArgs args)
{
    fakes3::Quiet quiet;
    PutObjectResponse resp;
    std::string data;
    data.resize(args.object_size > 0 ? args.object_size : 0);
    args.stream.read(data.data(), (std::streamsize)data.size());
    const auto got = (size_t)args.stream.gcount();
    Request r{ .op = "PutObject", .bucket = args.bucket, .key = args.object, .size = data.size() };
    const bool ok = begin_(r);
    Busy busy(this);
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    if (!ok) {
        FAIL(resp, "injected");
    }
    if (!s.buckets.count(args.bucket)) {
        REFUSE(resp, "NoSuchBucket");
    }
    if (got != data.size()) {
        REFUSE(resp, "IncompleteBody");
    }
    resp.etag = fakes3::etag_of(data);
    s.buckets[args.bucket][args.object] = std::move(data);
    return resp;
}

RemoveObjectResponse
Client::RemoveObject(RemoveObjectArgs args)
{
    fakes3::Quiet quiet;
    RemoveObjectResponse resp;
    Request r{ .op = "RemoveObject", .bucket = args.bucket, .key = args.object };
    const bool ok = begin_(r);
    Busy busy(this);
    if (!ok) {
        FAIL(resp, "injected");
    }
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    if (!s.buckets.count(args.bucket)) {
        REFUSE(resp, "NoSuchBucket");
    }
    s.buckets[args.bucket].erase(args.object);
    return resp;
}

CreateMultipartUploadResponse
Client::CreateMultipartUpload(CreateMultipartUploadArgs args)
{
    fakes3::Quiet quiet;
    CreateMultipartUploadResponse resp;
    Request r{ .op = "CreateUpload", .bucket = args.bucket, .key = args.object };
    const bool ok = begin_(r);
    Busy busy(this);
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    if (!ok) {
        FAIL(resp, "injected");
    }
    if (!s.buckets.count(args.bucket)) {
        REFUSE(resp, "NoSuchBucket");
    }
    resp.upload_id = "upload-" + std::to_string(++s.next_upload);
    s.uploads[resp.upload_id].bucket = args.bucket;
    s.uploads[resp.upload_id].key = args.object;
    for (auto it = s.log.rbegin(); it != s.log.rend(); ++it) {
        if (it->seq == r.seq) {
            it->upload_id = resp.upload_id;
            break;
        }
    }
    return resp;
}

UploadPartResponse
Client::UploadPart(UploadPartArgs args)
{
    fakes3::Quiet quiet;
    UploadPartResponse resp;
    Request r{ .op = "UploadPart",
               .bucket = args.bucket,
               .key = args.object,
               .upload_id = args.upload_id,
               .part = (int)args.part_number,
               .size = args.data.size() };
    const bool ok = begin_(r);
    Busy busy(this);
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    if (!ok) {
        FAIL(resp, "injected");
    }
    auto it = s.uploads.find(args.upload_id);
    if (it == s.uploads.end() || it->second.done || it->second.aborted || it->second.bucket != args.bucket ||
        it->second.key != args.object) {
        REFUSE(resp, "NoSuchUpload");
    }
    if (args.part_number < 1 || args.part_number > 10000) {
        REFUSE(resp, "InvalidArgument");
    }
    auto& up = it->second;
    up.parts[args.part_number] = std::string(args.data);
    resp.etag = fakes3::etag_of(up.parts[args.part_number]) + "-p" + std::to_string(args.part_number);
    up.etags[args.part_number] = resp.etag;
    return resp;
}

CompleteMultipartUploadResponse
Client::CompleteMultipartUpload(CompleteMultipartUploadArgs args)
{
    fakes3::Quiet quiet;
    CompleteMultipartUploadResponse resp;
    Request r{ .op = "CompleteUpload",
               .bucket = args.bucket,
               .key = args.object,
               .upload_id = args.upload_id,
               .part = (int)args.parts.size() };
    const bool ok = begin_(r);
    Busy busy(this);
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    if (!ok) {
        FAIL(resp, "injected");
    }
    auto it = s.uploads.find(args.upload_id);
    if (it == s.uploads.end() || it->second.done || it->second.aborted || it->second.bucket != args.bucket ||
        it->second.key != args.object) {
        REFUSE(resp, "NoSuchUpload");
    }
    auto& up = it->second;
    if (args.parts.empty()) {
        REFUSE(resp, "MalformedXML");
    }
    unsigned last = 0;
    std::string data;
    for (auto p = args.parts.begin(); p != args.parts.end(); ++p) {
        if (p->number <= last) {
            REFUSE(resp, "InvalidPartOrder");
        }
        last = p->number;
        auto have = up.parts.find(p->number);
        if (have == up.parts.end() || up.etags[p->number] != p->etag) {
            REFUSE(resp, "InvalidPart");
        }
        if (std::next(p) != args.parts.end() && have->second.size() < (5u << 20)) {
            REFUSE(resp, "EntityTooSmall");
        }
        data += have->second;
    }
    up.done = true;
    resp.etag = fakes3::etag_of(data);
    s.buckets[args.bucket][args.object] = std::move(data);
    return resp;
}

AbortMultipartUploadResponse
Client::AbortMultipartUpload(AbortMultipartUploadArgs args)
{
    fakes3::Quiet quiet;
    AbortMultipartUploadResponse resp;
    Request r{ .op = "AbortUpload", .bucket = args.bucket, .key = args.object, .upload_id = args.upload_id };
    const bool ok = begin_(r);
    Busy busy(this);
    auto& s = Server::get();
    std::scoped_lock lock(s.mutex);
    if (!ok) {
        FAIL(resp, "injected");
    }
    auto it = s.uploads.find(args.upload_id);
    if (it == s.uploads.end()) {
        REFUSE(resp, "NoSuchUpload");
    }
    it->second.aborted = true;
    it->second.parts.clear();
    return resp;
}
} // namespace minio::s3
