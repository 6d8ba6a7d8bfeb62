#pragma once
#include "../details/all.h"

namespace bitsery
{
template <typename Buffer, typename Config = DefaultConfig>
class OutputBufferAdapter
{
public:
    using TConfig = Config;
    OutputBufferAdapter(Buffer& b) : b_(&b) {}  // NOLINT
    void align() {}
    template <size_t N, typename T>
    void writeBytes(const T& v) { put(reinterpret_cast<const unsigned char*>(&v), N); }
    template <size_t N, typename T>
    void writeBuffer(const T* p, size_t c) { put(reinterpret_cast<const unsigned char*>(p), N * c); }
    void flush() {}
    size_t writtenBytesCount() const { return n_; }

private:
    void put(const unsigned char* p, size_t n)
    {
        if (b_->size() < n_ + n) b_->resize(n_ + n);
        std::memcpy(b_->data() + n_, p, n);
        n_ += n;
    }
    Buffer* b_;
    size_t n_ = 0;
};
template <typename Buffer, typename Config = DefaultConfig>
class InputBufferAdapter
{
public:
    using TConfig = Config;
    template <typename It>
    InputBufferAdapter(It b, size_t n) : p_(n ? reinterpret_cast<const unsigned char*>(&*b) : nullptr), n_(n) {}
    template <typename It, typename = std::enable_if_t<!std::is_integral_v<It>>>
    InputBufferAdapter(It b, It e) : InputBufferAdapter(b, static_cast<size_t>(std::distance(b, e))) {}
    void align() {}
    template <size_t N, typename T>
    void readBytes(T& v) { get(reinterpret_cast<unsigned char*>(&v), N); }
    template <size_t N, typename T>
    void readBuffer(T* p, size_t c) { get(reinterpret_cast<unsigned char*>(p), N * c); }
    ReaderError error() const { return err_; }
    void error(ReaderError e) { if (err_ == ReaderError::NoError) err_ = e; }
    bool isCompletedSuccessfully() const { return err_ == ReaderError::NoError && o_ == n_; }

private:
    void get(unsigned char* d, size_t n)
    {
        if (err_ != ReaderError::NoError || n_ - o_ < n) { std::memset(d, 0, n); error(ReaderError::DataOverflow); return; }
        std::memcpy(d, p_ + o_, n);
        o_ += n;
    }
    const unsigned char* p_;
    size_t n_, o_ = 0;
    ReaderError err_ = ReaderError::NoError;
};
}
