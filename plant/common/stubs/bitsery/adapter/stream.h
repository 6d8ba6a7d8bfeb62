#pragma once
#include "../details/all.h"
#include <ios>
#include <istream>
#include <ostream>

namespace bitsery
{

template <typename Config = DefaultConfig>
class BasicInputStreamAdapter
{
public:
    using BitPackingEnabled = std::false_type;
    using TConfig = Config;
    using TValue = char;
    BasicInputStreamAdapter(std::basic_ios<char>& ios) : ios_(std::addressof(ios)) {}  // NOLINT
    void align() {}
    template <size_t N, typename T>
    void readBytes(T& v) { static_assert(sizeof(T) == N); readInternal(reinterpret_cast<char*>(&v), N); }
    template <size_t N, typename T>
    void readBuffer(T* p, size_t count) { static_assert(sizeof(T) == N); readInternal(reinterpret_cast<char*>(p), N * count); }
    ReaderError error() const { return err_; }
    void error(ReaderError e)
    {
        if (err_ == ReaderError::NoError) {
            err_ = e;
            zeroIfNoErrors_ = std::numeric_limits<size_t>::max();
        }
    }
    bool isCompletedSuccessfully() const
    {
        return err_ == ReaderError::NoError && ios_->rdbuf()->sgetc() == std::char_traits<char>::eof();
    }

private:
    void readInternal(char* data, size_t size)
    {
        if (size - static_cast<size_t>(ios_->rdbuf()->sgetn(data, static_cast<std::streamsize>(size))) != zeroIfNoErrors_) {
            std::memset(data, 0, size);
            if (zeroIfNoErrors_ == 0)
                error(ios_->rdstate() & std::ios_base::badbit ? ReaderError::ReadingError : ReaderError::DataOverflow);
        }
    }
    std::basic_ios<char>* ios_;
    size_t zeroIfNoErrors_{};
    ReaderError err_ = ReaderError::NoError;
};

template <typename Config = DefaultConfig>
class BasicOutputStreamAdapter
{
public:
    using BitPackingEnabled = std::false_type;
    using TConfig = Config;
    using TValue = char;
    BasicOutputStreamAdapter(std::basic_ios<char>& ios) : ios_(std::addressof(ios)) {}  // NOLINT
    void align() {}
    template <size_t N, typename T>
    void writeBytes(const T& v) { static_assert(sizeof(T) == N); writeInternal(reinterpret_cast<const char*>(&v), N); }
    template <size_t N, typename T>
    void writeBuffer(const T* p, size_t count) { static_assert(sizeof(T) == N); writeInternal(reinterpret_cast<const char*>(p), N * count); }
    void flush()
    {
        if (auto o = dynamic_cast<std::basic_ostream<char>*>(ios_)) o->flush();
    }
    size_t writtenBytesCount() const { return written_; }

private:
    void writeInternal(const char* d, size_t n)
    {
        ios_->rdbuf()->sputn(d, static_cast<std::streamsize>(n));
        written_ += n;
    }
    std::basic_ios<char>* ios_;
    size_t written_{};
};

using InputStreamAdapter = BasicInputStreamAdapter<>;
using OutputStreamAdapter = BasicOutputStreamAdapter<>;
using OutputBufferedStreamAdapter = BasicOutputStreamAdapter<>;

}
