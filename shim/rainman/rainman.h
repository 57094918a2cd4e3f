// Stand-in for the rainman memory-management library (an empty git submodule in
// the analysed repository).  It provides the interface hybridzip uses, with the
// documented behaviour, so that the whole tree can be parsed and type-checked
// (static analysis) and, in demonstrations, compiled and run.
#ifndef RAINMAN_STANDIN_H
#define RAINMAN_STANDIN_H

#include <cstdint>
#include <cstdlib>
#include <cstddef>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <mutex>
#include <map>
#include <thread>
#include <functional>
#include <stdexcept>
#include <iostream>
#include <type_traits>
#include <utility>
#include <unordered_map>
#include <condition_variable>
#include <atomic>

namespace rainman {
    class Allocator {
    private:
        struct block { void *raw; uint64_t n; uint64_t bytes; void (*destroy)(void *, uint64_t); };
        static std::mutex &mtx() { static std::mutex m; return m; }
        static std::map<void *, block> &blocks() { static auto *b = new std::map<void *, block>(); return *b; }
        static uint64_t &used() { static uint64_t u = 0; return u; }
        static uint64_t &peak() { static uint64_t p = 0; return p; }

    public:
        Allocator() = default;

        template<typename T>
        T *rmalloc(uint64_t n) {
            T *p = static_cast<T *>(std::malloc(n * sizeof(T) + 1));
            if (p == nullptr) throw std::bad_alloc();
            std::lock_guard<std::mutex> g(mtx());
            blocks()[p] = block{p, n, n * sizeof(T), nullptr};
            used() += n * sizeof(T);
            return p;
        }

        template<typename T, typename ...Args>
        T *rnew(uint64_t n, Args... args) {
            T *p = static_cast<T *>(std::malloc(n * sizeof(T) + 1));
            if (p == nullptr) throw std::bad_alloc();
            for (uint64_t i = 0; i < n; i++) new(p + i) T(args...);
            std::lock_guard<std::mutex> g(mtx());
            blocks()[p] = block{p, n, n * sizeof(T), [](void *q, uint64_t k) {
                for (uint64_t i = 0; i < k; i++) static_cast<T *>(q)[i].~T();
            }};
            used() += n * sizeof(T);
            return p;
        }

        template<typename T>
        void rfree(T *p) {
            if (p == nullptr) return;
            block b{};
            {
                std::lock_guard<std::mutex> g(mtx());
                auto it = blocks().find((void *) p);
                if (it == blocks().end()) throw std::runtime_error("rainman: free of unknown pointer");
                b = it->second;
                used() -= b.bytes;
                blocks().erase(it);
            }
            if (b.destroy != nullptr) b.destroy((void *) p, b.n);
            std::free((void *) p);
        }

        void peak_size(uint64_t n) { peak() = n; }

        uint64_t peak_size() { return peak(); }

        uint64_t alloc_size() { std::lock_guard<std::mutex> g(mtx()); return used(); }
    };

    typedef Allocator memmgr;

    template<typename T>
    class ptr {
    private:
        std::shared_ptr<T> _own;
        T *_p = nullptr;
        uint64_t _n = 0;

    public:
        ptr() : _n(1) { _own = std::shared_ptr<T>(new T[1](), [](T *q) { delete[] q; }); _p = _own.get(); }

        explicit ptr(uint64_t n) : _n(n) {
            _own = std::shared_ptr<T>(new T[n](), [](T *q) { delete[] q; });
            _p = _own.get();
        }

        template<typename A, typename ...Args>
        requires (!std::is_pointer_v<A>)
        ptr(uint64_t n, A &&a, Args &&... args) : _n(n) {
            _own = std::shared_ptr<T>(new T(std::forward<A>(a), std::forward<Args>(args)...));
            _p = _own.get();
        }

        template<typename A>
        requires (std::is_pointer_v<A> && !std::is_same_v<A, T *>)
        ptr(uint64_t n, A a) : _n(n) {
            _own = std::shared_ptr<T>(new T(a));
            _p = _own.get();
        }

        ptr(T *p, uint64_t n) : _p(p), _n(n) {}

        T *pointer() const { return _p; }

        uint64_t size() const { return _n; }

        T &operator[](uint64_t i) const { return _p[i]; }

        T *operator->() const { return _p; }

        T &operator*() const { return *_p; }

        ptr &operator++() { ++_p; return *this; }

        bool operator==(std::nullptr_t) const { return _p == nullptr; }
    };

    template<typename T>
    class option {
    private:
        T _v{};
        bool _some = false;

    public:
        option() = default;

        option(const T &v) : _v(v), _some(true) {}

        bool is_some() const { return _some; }

        bool is_none() const { return !_some; }

        T &inner() { return _v; }

        const T &inner() const { return _v; }
    };

    template<typename T>
    class ptr2d {
    private:
        ptr<T> _d;
        uint64_t _r = 0, _c = 0;

    public:
        ptr2d() = default;

        ptr2d(uint64_t r, uint64_t c) : _d(r * c), _r(r), _c(c) {}

        ptr<T> operator[](uint64_t i) const { return ptr<T>(_d.pointer() + i * _c, _c); }

        uint64_t rows() const { return _r; }

        uint64_t cols() const { return _c; }
    };

    template<typename T>
    class ptr3d {
    private:
        ptr<T> _d;
        uint64_t _x = 0, _y = 0, _z = 0;

    public:
        struct plane {
            T *p;
            uint64_t c;

            ptr<T> operator[](uint64_t i) const { return ptr<T>(p + i * c, c); }
        };

        ptr3d() = default;

        ptr3d(uint64_t x, uint64_t y, uint64_t z) : _d(x * y * z), _x(x), _y(y), _z(z) {}

        plane operator[](uint64_t i) const { return plane{_d.pointer() + i * _y * _z, _z}; }
    };

    template<typename T>
    ptr2d<T> make_ptr2d(uint64_t r, uint64_t c) { return ptr2d<T>(r, c); }

    template<typename T>
    ptr3d<T> make_ptr3d(uint64_t x, uint64_t y, uint64_t z) { return ptr3d<T>(x, y, z); }
}

#include "cache.h"

#endif
