// Views of text that end exactly where their memory ends and that are gone soon after the call: reading past the end or keeping the view is an error under asan.
#pragma once
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
inline std::string_view tight(std::string_view s)
{
    static thread_local std::unique_ptr<char[]> ring[16]; static thread_local unsigned n = 0;
    auto& r = ring[n++ % 16]; r.reset(new char[s.size()]); std::memcpy(r.get(), s.data(), s.size()); return {r.get(), s.size()};
}
