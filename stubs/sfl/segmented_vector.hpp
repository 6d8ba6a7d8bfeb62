// Stand-in for sfl::segmented_vector (sfl-library is not installed in this sandbox).
// Elements live in fixed-size segments, so references stay valid while the container grows at its
// end; growth at the end has the strong exception guarantee; operator[] beyond size() is an assertion.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace sfl
{

template <typename T, std::size_t N, typename Allocator = std::allocator<T>>
class segmented_vector
{
    static_assert(N > 0, "N must be greater than zero.");
    using Seg = T*;
    using SegAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<Seg>;
    using ATraits = std::allocator_traits<Allocator>;
    using SATraits = std::allocator_traits<SegAlloc>;

    template <bool C>
    class iter
    {
        friend class segmented_vector;
        friend class iter<!C>;
        using Owner = std::conditional_t<C, const segmented_vector, segmented_vector>;
        Owner* o_ = nullptr;
        std::size_t i_ = 0;
        iter(Owner* o, std::size_t i) : o_(o), i_(i) {}

    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = std::conditional_t<C, const T*, T*>;
        using reference = std::conditional_t<C, const T&, T&>;
        iter() = default;
        template <bool D, typename = std::enable_if_t<C && !D>>
        iter(const iter<D>& x) : o_(x.o_), i_(x.i_) {}  // NOLINT
        reference operator*() const { return (*o_)[i_]; }
        pointer operator->() const { return &(*o_)[i_]; }
        reference operator[](difference_type n) const { return (*o_)[i_ + n]; }
        iter& operator++() { ++i_; return *this; }
        iter operator++(int) { auto t = *this; ++i_; return t; }
        iter& operator--() { --i_; return *this; }
        iter operator--(int) { auto t = *this; --i_; return t; }
        iter& operator+=(difference_type n) { i_ += n; return *this; }
        iter& operator-=(difference_type n) { i_ -= n; return *this; }
        friend iter operator+(iter a, difference_type n) { a.i_ += n; return a; }
        friend iter operator+(difference_type n, iter a) { a.i_ += n; return a; }
        friend iter operator-(iter a, difference_type n) { a.i_ -= n; return a; }
        friend difference_type operator-(const iter& a, const iter& b) { return (difference_type)a.i_ - (difference_type)b.i_; }
        friend bool operator==(const iter& a, const iter& b) { return a.i_ == b.i_; }
        friend bool operator!=(const iter& a, const iter& b) { return a.i_ != b.i_; }
        friend bool operator<(const iter& a, const iter& b) { return a.i_ < b.i_; }
        friend bool operator>(const iter& a, const iter& b) { return a.i_ > b.i_; }
        friend bool operator<=(const iter& a, const iter& b) { return a.i_ <= b.i_; }
        friend bool operator>=(const iter& a, const iter& b) { return a.i_ >= b.i_; }
    };

public:
    using allocator_type = Allocator;
    using value_type = T;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using const_pointer = const T*;
    using iterator = iter<false>;
    using const_iterator = iter<true>;
    using reverse_iterator = std::reverse_iterator<iterator>;
    using const_reverse_iterator = std::reverse_iterator<const_iterator>;

    static constexpr size_type segment_capacity() noexcept { return N; }

    segmented_vector() = default;
    explicit segmented_vector(size_type n) { try { resize(n); } catch (...) { destroy(); throw; } }
    segmented_vector(size_type n, const T& v) { try { resize(n, v); } catch (...) { destroy(); throw; } }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    segmented_vector(It a, It b)
    {
        try { for (; a != b; ++a) emplace_back(*a); } catch (...) { destroy(); throw; }
    }
    segmented_vector(std::initializer_list<T> l) : segmented_vector(l.begin(), l.end()) {}
    segmented_vector(const segmented_vector& o) : segmented_vector(o.begin(), o.end()) {}
    segmented_vector(segmented_vector&& o) noexcept { swap(o); }
    segmented_vector& operator=(const segmented_vector& o)
    {
        if (this != &o) { segmented_vector t(o); swap(t); }
        return *this;
    }
    segmented_vector& operator=(segmented_vector&& o) noexcept
    {
        if (this != &o) { segmented_vector t(std::move(o)); swap(t); }
        return *this;
    }
    segmented_vector& operator=(std::initializer_list<T> l) { segmented_vector t(l); swap(t); return *this; }
    ~segmented_vector() { destroy(); }

    void assign(size_type n, const T& v) { segmented_vector t(n, v); swap(t); }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    void assign(It a, It b) { segmented_vector t(a, b); swap(t); }
    void assign(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
    allocator_type get_allocator() const { return allocator_type(); }

    iterator begin() noexcept { return {this, 0}; }
    const_iterator begin() const noexcept { return {this, 0}; }
    const_iterator cbegin() const noexcept { return {this, 0}; }
    iterator end() noexcept { return {this, size_}; }
    const_iterator end() const noexcept { return {this, size_}; }
    const_iterator cend() const noexcept { return {this, size_}; }
    reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
    const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
    reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
    const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
    iterator nth(size_type i) { return {this, i}; }
    const_iterator nth(size_type i) const { return {this, i}; }
    size_type index_of(const_iterator p) const { return p.i_; }

    [[nodiscard]] bool empty() const noexcept { return size_ == 0; }
    [[nodiscard]] size_type size() const noexcept { return size_; }
    [[nodiscard]] size_type max_size() const noexcept { return std::numeric_limits<difference_type>::max() / sizeof(T); }
    [[nodiscard]] size_type capacity() const noexcept { return nsegs_ * N; }
    [[nodiscard]] size_type available() const noexcept { return capacity() - size_; }

    void reserve(size_type n)
    {
        if (n > max_size()) throw std::length_error("sfl::segmented_vector::reserve");
        grow(n);
    }
    void shrink_to_fit()
    {
        Allocator a;
        size_type need = (size_ + N - 1) / N;
        while (nsegs_ > need) { --nsegs_; ATraits::deallocate(a, segs_[nsegs_], N); }
        if (nsegs_ == 0 && segs_) { SegAlloc sa; SATraits::deallocate(sa, segs_, scap_); segs_ = nullptr; scap_ = 0; }
    }

    T& operator[](size_type n) { assert(n < size_ && "sfl::segmented_vector: index out of range"); return segs_[n / N][n % N]; }
    const T& operator[](size_type n) const { assert(n < size_ && "sfl::segmented_vector: index out of range"); return segs_[n / N][n % N]; }
    T& at(size_type n) { if (n >= size_) throw std::out_of_range("sfl::segmented_vector::at"); return (*this)[n]; }
    const T& at(size_type n) const { if (n >= size_) throw std::out_of_range("sfl::segmented_vector::at"); return (*this)[n]; }
    T& front() { return (*this)[0]; }
    const T& front() const { return (*this)[0]; }
    T& back() { return (*this)[size_ - 1]; }
    const T& back() const { return (*this)[size_ - 1]; }

    template <typename... Args>
    T& emplace_back(Args&&... args)
    {
        if (size_ == nsegs_ * N) grow(size_ + 1);
        T* p = segs_[size_ / N] + size_ % N;
        if constexpr (std::is_constructible_v<T, Args...>) ::new ((void*)p) T(std::forward<Args>(args)...);
        else ::new ((void*)p) T{std::forward<Args>(args)...};
        ++size_;
        return *p;
    }
    void push_back(const T& v) { emplace_back(v); }
    void push_back(T&& v) { emplace_back(std::move(v)); }
    void pop_back() { assert(size_ > 0); --size_; (segs_[size_ / N] + size_ % N)->~T(); }

    template <typename... Args>
    iterator emplace(const_iterator pos, Args&&... args)
    {
        size_type i = pos.i_;
        emplace_back(std::forward<Args>(args)...);
        std::rotate(begin() + i, end() - 1, end());
        return {this, i};
    }
    iterator insert(const_iterator pos, const T& v) { return emplace(pos, v); }
    iterator insert(const_iterator pos, T&& v) { return emplace(pos, std::move(v)); }
    iterator insert(const_iterator pos, size_type n, const T& v)
    {
        size_type i = pos.i_, s = size_;
        resize(size_ + n, v);
        std::rotate(begin() + i, begin() + s, end());
        return {this, i};
    }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    iterator insert(const_iterator pos, It a, It b)
    {
        size_type i = pos.i_, s = size_;
        try { for (; a != b; ++a) emplace_back(*a); } catch (...) { cut(s); throw; }
        std::rotate(begin() + i, begin() + s, end());
        return {this, i};
    }
    iterator insert(const_iterator pos, std::initializer_list<T> l) { return insert(pos, l.begin(), l.end()); }
    iterator erase(const_iterator pos) { return erase(pos, pos + 1); }
    iterator erase(const_iterator a, const_iterator b)
    {
        size_type i = a.i_, n = b.i_ - a.i_;
        if (n) { std::move(begin() + i + n, end(), begin() + i); cut(size_ - n); }
        return {this, i};
    }

    void resize(size_type n)
    {
        if (n <= size_) { cut(n); return; }
        if (n > max_size()) throw std::length_error("sfl::segmented_vector::resize");
        size_type s = size_;
        grow(n);
        try { while (size_ < n) { ::new ((void*)(segs_[size_ / N] + size_ % N)) T(); ++size_; } }
        catch (...) { cut(s); throw; }
    }
    void resize(size_type n, const T& v)
    {
        if (n <= size_) { cut(n); return; }
        if (n > max_size()) throw std::length_error("sfl::segmented_vector::resize");
        size_type s = size_;
        grow(n);
        try { while (size_ < n) { ::new ((void*)(segs_[size_ / N] + size_ % N)) T(v); ++size_; } }
        catch (...) { cut(s); throw; }
    }
    void clear() noexcept { cut(0); }
    void swap(segmented_vector& o) noexcept
    {
        std::swap(segs_, o.segs_);
        std::swap(nsegs_, o.nsegs_);
        std::swap(scap_, o.scap_);
        std::swap(size_, o.size_);
    }
    friend void swap(segmented_vector& a, segmented_vector& b) noexcept { a.swap(b); }
    friend bool operator==(const segmented_vector& a, const segmented_vector& b)
    {
        return a.size_ == b.size_ && std::equal(a.begin(), a.end(), b.begin());
    }
    friend bool operator!=(const segmented_vector& a, const segmented_vector& b) { return !(a == b); }
    friend bool operator<(const segmented_vector& a, const segmented_vector& b)
    {
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    }

private:
    Seg* segs_ = nullptr;
    size_type nsegs_ = 0, scap_ = 0, size_ = 0;

    void grow(size_type n)
    {
        size_type need = n / N + (n % N != 0);
        if (need <= nsegs_) return;
        if (need > scap_) {
            SegAlloc sa;
            size_type nc = std::max<size_type>(need, scap_ + scap_ / 2 + 1);
            Seg* t = SATraits::allocate(sa, nc);
            for (size_type i = 0; i < nsegs_; ++i) t[i] = segs_[i];
            if (segs_) SATraits::deallocate(sa, segs_, scap_);
            segs_ = t;
            scap_ = nc;
        }
        Allocator a;
        size_type old = nsegs_;
        try { while (nsegs_ < need) { segs_[nsegs_] = ATraits::allocate(a, N); ++nsegs_; } }
        catch (...) {
            while (nsegs_ > old) { --nsegs_; ATraits::deallocate(a, segs_[nsegs_], N); }
            throw;
        }
    }
    void cut(size_type n) noexcept { while (size_ > n) { --size_; (segs_[size_ / N] + size_ % N)->~T(); } }
    void destroy() noexcept
    {
        cut(0);
        shrink_to_fit();
    }
};

}
