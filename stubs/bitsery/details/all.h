#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <deque>
#include <iterator>
#include <limits>
#include <list>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace bitsery
{

enum class EndiannessType { LittleEndian, BigEndian };
struct DefaultConfig
{
    static constexpr EndiannessType Endianness = EndiannessType::LittleEndian;
    static constexpr bool CheckDataErrors = true;
    static constexpr bool CheckAdapterErrors = true;
};

enum class ReaderError { NoError, ReadingError, DataOverflow, InvalidData, InvalidPointer };

namespace traits
{
template <typename T, bool Resizable, bool Contiguous>
struct StdContainer
{
    using TValue = typename T::value_type;
    static constexpr bool isResizable = Resizable;
    static constexpr bool isContiguous = Contiguous;
    static size_t size(const T& c) { return c.size(); }
};
template <typename T, bool Contiguous>
struct StdContainer<T, true, Contiguous>
{
    using TValue = typename T::value_type;
    static constexpr bool isResizable = true;
    static constexpr bool isContiguous = Contiguous;
    static size_t size(const T& c) { return c.size(); }
    static void resize(T& c, size_t n) { c.resize(n); }
};

struct NotDefinedType {};
template <typename T>
struct ContainerTraits
{
    using TValue = NotDefinedType;
    static constexpr bool isResizable = false;
    static constexpr bool isContiguous = false;
};
template <typename T>
struct TextTraits { using TValue = NotDefinedType; static constexpr bool addNUL = true; };
template <typename Ext, typename T>
struct ExtensionTraits { using TValue = void; static constexpr bool SupportValueOverload = true, SupportObjectOverload = true, SupportLambdaOverload = true; };
template <typename T>
struct BufferAdapterTraits
{
    using TIterator = typename T::iterator;
    using TConstIterator = typename T::const_iterator;
    using TValue = typename T::value_type;
};

template <typename T, size_t N>
struct ContainerTraits<std::array<T, N>> : public StdContainer<std::array<T, N>, false, true> {};
template <typename T, typename A>
struct ContainerTraits<std::vector<T, A>> : public StdContainer<std::vector<T, A>, true, true> {};
template <typename T, typename A>
struct ContainerTraits<std::deque<T, A>> : public StdContainer<std::deque<T, A>, true, false> {};
template <typename T, typename A>
struct ContainerTraits<std::list<T, A>> : public StdContainer<std::list<T, A>, true, false> {};
template <typename... A>
struct ContainerTraits<std::basic_string<A...>> : public StdContainer<std::basic_string<A...>, true, true> {};
template <typename... A>
struct TextTraits<std::basic_string<A...>>
{
    using TValue = typename ContainerTraits<std::basic_string<A...>>::TValue;
    static constexpr bool addNUL = false;
    static size_t length(const std::basic_string<A...>& s) { return s.size(); }
};
}

class Access
{
public:
    template <typename S, typename T>
    static auto serialize(S& s, T& v) -> decltype(v.serialize(s)) { v.serialize(s); }
    template <typename T>
    static T create() { return T{}; }
};

namespace details
{
template <typename S, typename T, typename = void>
struct HasFree : std::false_type {};
template <typename S, typename T>
struct HasFree<S, T, std::void_t<decltype(serialize(std::declval<S&>(), std::declval<T&>()))>> : std::true_type {};
template <typename S, typename T>
void invokeSerialize(S& s, T& v)
{
    if constexpr (HasFree<S, T>::value) serialize(s, v);
    else Access::serialize(s, v);
}

template <typename A>
void writeSize(A& w, size_t size)
{
    if (size < 0x80u) w.template writeBytes<1>(static_cast<uint8_t>(size));
    else if (size < 0x4000u) {
        w.template writeBytes<1>(static_cast<uint8_t>((size >> 8) | 0x80u));
        w.template writeBytes<1>(static_cast<uint8_t>(size));
    } else {
        w.template writeBytes<1>(static_cast<uint8_t>((size >> 24) | 0xC0u));
        w.template writeBytes<1>(static_cast<uint8_t>(size >> 16));
        w.template writeBytes<2>(static_cast<uint16_t>(size));
    }
}
template <typename A>
void readSize(A& r, size_t& size, size_t maxSize)
{
    uint8_t hb{};
    r.template readBytes<1>(hb);
    if (hb < 0x80u) size = hb;
    else {
        uint8_t lb{};
        r.template readBytes<1>(lb);
        if (hb & 0x40u) {
            uint16_t lw{};
            r.template readBytes<2>(lw);
            size = (((static_cast<size_t>(hb & 0x3Fu) << 8) | lb) << 16) | lw;
        } else
            size = (static_cast<size_t>(hb & 0x7Fu) << 8) | lb;
    }
    if (size > maxSize) { r.error(ReaderError::InvalidData); size = 0; }
}
}

template <typename Adapter, typename Context = void>
class Serializer
{
public:
    using TConfig = DefaultConfig;
    static constexpr bool IsSerializer = true, IsDeserializer = false;
    template <typename... Args>
    explicit Serializer(Args&&... args) : a_(std::forward<Args>(args)...) {}
    Serializer(const Serializer&) = delete;
    Serializer& operator=(const Serializer&) = delete;
    const Adapter& adapter() const& { return a_; }
    Adapter& adapter() & { return a_; }
    Adapter adapter() && { return std::move(a_); }

    template <size_t N, typename T>
    void value(const T& v)
    {
        static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>, "value must be fundamental type or enum");
        static_assert(sizeof(T) == N, "size mismatch");
        a_.template writeBytes<N>(v);
    }
    template <typename T> void value1b(T&& v) { value<1>(v); }
    template <typename T> void value2b(T&& v) { value<2>(v); }
    template <typename T> void value4b(T&& v) { value<4>(v); }
    template <typename T> void value8b(T&& v) { value<8>(v); }
    template <typename T> void boolValue(const T& v) { a_.template writeBytes<1>(static_cast<uint8_t>(v ? 1 : 0)); }

    template <typename T> void object(const T& v) { details::invokeSerialize(*this, const_cast<T&>(v)); }
    template <typename T, typename F> void object(const T& v, F&& f) { f(*this, const_cast<T&>(v)); }
    template <typename... Args> Serializer& operator()(Args&&... args) { (object(args), ...); return *this; }

    template <typename T, typename Ext>
    void ext(const T& v, const Ext& e)
    {
        using TV = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.serialize(*this, v, [](Serializer& s, TV& x) { s.object(x); });
    }
    template <typename T, typename Ext, typename F>
    void ext(const T& v, const Ext& e, F&& f) { e.serialize(*this, v, std::forward<F>(f)); }
    template <size_t N, typename T, typename Ext>
    void ext(const T& v, const Ext& e)
    {
        using TV = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.serialize(*this, v, [](Serializer& s, TV& x) { s.template value<N>(x); });
    }

    template <size_t N, typename T>
    void text(const T& str, size_t maxSize = std::numeric_limits<size_t>::max())
    {
        (void)maxSize;
        size_t n = traits::TextTraits<T>::length(str);
        if constexpr (traits::ContainerTraits<T>::isResizable) details::writeSize(a_, n);
        auto it = std::begin(str);
        static_assert(sizeof(*it) == N);
        if (n) a_.template writeBuffer<N>(&*it, n);
    }
    template <typename T> void text1b(const T& s, size_t m) { text<1>(s, m); }
    template <typename T> void text2b(const T& s, size_t m) { text<2>(s, m); }
    template <typename T> void text4b(const T& s, size_t m) { text<4>(s, m); }

    template <typename T>
    void container(const T& c, size_t maxSize)
    {
        (void)maxSize;
        size(c);
        for (auto it = std::begin(c); it != std::end(c); ++it) object(*it);
    }
    template <typename T, typename F, typename = std::enable_if_t<!std::is_integral_v<std::decay_t<F>>>>
    void container(const T& c, size_t maxSize, F&& f)
    {
        (void)maxSize;
        size(c);
        using TV = typename traits::ContainerTraits<T>::TValue;
        for (auto it = std::begin(c); it != std::end(c); ++it) f(*this, const_cast<TV&>(*it));
    }
    template <size_t N, typename T>
    void container(const T& c, size_t maxSize = 0)
    {
        (void)maxSize;
        size(c);
        if constexpr (traits::ContainerTraits<T>::isContiguous) {
            if (std::begin(c) != std::end(c)) a_.template writeBuffer<N>(&*std::begin(c), traits::ContainerTraits<T>::size(c));
        } else
            for (auto it = std::begin(c); it != std::end(c); ++it) value<N>(*it);
    }
    template <typename T> void container1b(const T& c, size_t m = 0) { container<1>(c, m); }
    template <typename T> void container2b(const T& c, size_t m = 0) { container<2>(c, m); }
    template <typename T> void container4b(const T& c, size_t m = 0) { container<4>(c, m); }
    template <typename T> void container8b(const T& c, size_t m = 0) { container<8>(c, m); }
    void align() {}

private:
    template <typename T>
    void size(const T& c)
    {
        if constexpr (traits::ContainerTraits<T>::isResizable) details::writeSize(a_, traits::ContainerTraits<T>::size(c));
    }
    Adapter a_;
};

template <typename Adapter, typename Context = void>
class Deserializer
{
public:
    using TConfig = DefaultConfig;
    static constexpr bool IsSerializer = false, IsDeserializer = true;
    template <typename... Args>
    explicit Deserializer(Args&&... args) : a_(std::forward<Args>(args)...) {}
    Deserializer(const Deserializer&) = delete;
    Deserializer& operator=(const Deserializer&) = delete;
    const Adapter& adapter() const& { return a_; }
    Adapter& adapter() & { return a_; }
    Adapter adapter() && { return std::move(a_); }

    template <size_t N, typename T>
    void value(T& v)
    {
        static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>, "value must be fundamental type or enum");
        static_assert(sizeof(T) == N, "size mismatch");
        a_.template readBytes<N>(v);
    }
    template <typename T> void value1b(T&& v) { value<1>(v); }
    template <typename T> void value2b(T&& v) { value<2>(v); }
    template <typename T> void value4b(T&& v) { value<4>(v); }
    template <typename T> void value8b(T&& v) { value<8>(v); }
    template <typename T> void boolValue(T& v)
    {
        uint8_t t{};
        a_.template readBytes<1>(t);
        if (t > 1) a_.error(ReaderError::InvalidData);
        v = t == 1;
    }
    template <typename T> void object(T&& v) { details::invokeSerialize(*this, v); }
    template <typename T, typename F> void object(T&& v, F&& f) { f(*this, v); }
    template <typename... Args> Deserializer& operator()(Args&&... args) { (object(args), ...); return *this; }

    template <typename T, typename Ext>
    void ext(T& v, const Ext& e)
    {
        using TV = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.deserialize(*this, v, [](Deserializer& s, TV& x) { s.object(x); });
    }
    template <typename T, typename Ext, typename F>
    void ext(T& v, const Ext& e, F&& f) { e.deserialize(*this, v, std::forward<F>(f)); }
    template <size_t N, typename T, typename Ext>
    void ext(T& v, const Ext& e)
    {
        using TV = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.deserialize(*this, v, [](Deserializer& s, TV& x) { s.template value<N>(x); });
    }

    template <size_t N, typename T>
    void text(T& str, size_t maxSize = std::numeric_limits<size_t>::max())
    {
        size_t n = 0;
        if constexpr (traits::ContainerTraits<T>::isResizable) {
            details::readSize(a_, n, maxSize);
            traits::ContainerTraits<T>::resize(str, n);
        }
        auto it = std::begin(str);
        static_assert(sizeof(*it) == N);
        if (n) a_.template readBuffer<N>(&*it, n);
    }
    template <typename T> void text1b(T& s, size_t m) { text<1>(s, m); }
    template <typename T> void text2b(T& s, size_t m) { text<2>(s, m); }
    template <typename T> void text4b(T& s, size_t m) { text<4>(s, m); }

    template <typename T>
    void container(T& c, size_t maxSize)
    {
        size(c, maxSize);
        for (auto it = std::begin(c); it != std::end(c); ++it) object(*it);
    }
    template <typename T, typename F, typename = std::enable_if_t<!std::is_integral_v<std::decay_t<F>>>>
    void container(T& c, size_t maxSize, F&& f)
    {
        size(c, maxSize);
        for (auto it = std::begin(c); it != std::end(c); ++it) f(*this, *it);
    }
    template <size_t N, typename T>
    void container(T& c, size_t maxSize = std::numeric_limits<size_t>::max())
    {
        size(c, maxSize);
        if constexpr (traits::ContainerTraits<T>::isContiguous) {
            if (std::begin(c) != std::end(c)) a_.template readBuffer<N>(&*std::begin(c), traits::ContainerTraits<T>::size(c));
        } else
            for (auto it = std::begin(c); it != std::end(c); ++it) value<N>(*it);
    }
    template <typename T> void container1b(T& c, size_t m = std::numeric_limits<size_t>::max()) { container<1>(c, m); }
    template <typename T> void container2b(T& c, size_t m = std::numeric_limits<size_t>::max()) { container<2>(c, m); }
    template <typename T> void container4b(T& c, size_t m = std::numeric_limits<size_t>::max()) { container<4>(c, m); }
    template <typename T> void container8b(T& c, size_t m = std::numeric_limits<size_t>::max()) { container<8>(c, m); }
    void align() {}

private:
    template <typename T>
    void size(T& c, size_t maxSize)
    {
        if constexpr (traits::ContainerTraits<T>::isResizable) {
            size_t n = 0;
            details::readSize(a_, n, maxSize);
            traits::ContainerTraits<T>::resize(c, n);
        }
    }
    Adapter a_;
};

template <typename OutputAdapter, typename T>
size_t quickSerialization(OutputAdapter adapter, const T& value)
{
    Serializer<OutputAdapter> ser(std::move(adapter));
    ser.object(value);
    ser.adapter().flush();
    return ser.adapter().writtenBytesCount();
}
template <typename InputAdapter, typename T>
std::pair<ReaderError, bool> quickDeserialization(InputAdapter adapter, T& value)
{
    Deserializer<InputAdapter> des(std::move(adapter));
    des.object(value);
    return {des.adapter().error(), des.adapter().isCompletedSuccessfully()};
}

}
