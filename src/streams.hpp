// A stream buffer delivering its characters in pieces of the caller's choice.
#pragma once
#include <streambuf>
#include <string>
#include <vector>
template<class C> class chunk_buf : public std::basic_streambuf<C> {
    std::basic_string<C> s; std::vector<size_t> cuts; size_t at = 0, k = 0;
public:
    chunk_buf(std::basic_string<C> t, std::vector<size_t> c) : s(std::move(t)), cuts(std::move(c)) {}
protected:
    typename std::basic_streambuf<C>::int_type underflow() override
    {
        if (at >= s.size()) return std::char_traits<C>::eof();
        size_t n = cuts.empty() ? s.size() : cuts[k++ % cuts.size()]; if (!n) n = 1; if (n > s.size() - at) n = s.size() - at;
        C* b = &s[0] + at; this->setg(b, b, b + n); at += n; return std::char_traits<C>::to_int_type(*b);
    }
};
