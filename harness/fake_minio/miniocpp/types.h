#pragma once
#include <cstddef>
#include <string>
namespace minio::s3 {
struct Bucket
{
    std::string name;
};
struct Part
{
    unsigned int number = 0;
    std::string etag;
    size_t size = 0;
    Part() = default;
    explicit Part(unsigned int number, std::string etag)
      : number(number)
      , etag(std::move(etag))
    {
    }
};
} // namespace minio::s3
