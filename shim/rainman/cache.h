#ifndef RAINMAN_STANDIN_CACHE_H
#define RAINMAN_STANDIN_CACHE_H

#include <string>
#include "rainman.h"

namespace rainman {
    class cache {
    private:
        std::string _name;
        uint64_t _page;

    public:
        cache(const std::string &filename, uint64_t page_size) : _name(filename), _page(page_size) {}
    };

    template<typename T>
    class virtual_array {
    private:
        std::shared_ptr<std::vector<T>> _v;

    public:
        virtual_array(cache &, uint64_t n) : _v(std::make_shared<std::vector<T>>(n)) {}

        T operator[](uint64_t i) const { return (*_v)[i]; }

        void set(const T &value, uint64_t index) { (*_v)[index] = value; }

        uint64_t size() const { return _v->size(); }
    };
}

#endif
