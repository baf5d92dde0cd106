// Merkle trees. One call sequence per line: "<alg> op op ..."; answers the observations of the q and l calls.
//  n:count:value s:index:value u q l c m a b     (indexes from 1; value v is a digest of bytes v, 0 the zero digest)
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <optional>
#include <dottorrent/merkle_tree.hpp>
namespace dt = dottorrent;
template <typename H> static H value(int v) { H h {}; for (size_t i = 0; i < H::size(); ++i) h.data()[i] = std::byte(v ? (v * 37 + (int)i * v) & 0xff : 0); return h; }
template <typename H> static std::string show(const H& h)
{ std::string s; const char* d = "0123456789abcdef"; for (auto c : h) { auto u = (unsigned)c; s += d[u >> 4]; s += d[u & 15]; } return s; }

template <dt::hash_function F> static std::string run(std::istringstream& is)
{
    using tree = dt::merkle_tree<F>;
    using H = typename tree::value_type;
    std::optional<tree> t; std::string out, w;
#ifdef DOTTORRENT_USE_ISAL
    auto hasher = dt::make_multi_buffer_hasher(F);
#else
    auto hasher = dt::make_hasher(F);
#endif
    int updates = 0, sets = 0;
    while (is >> w) {
        char op; int a = 0, b = 0; sscanf(w.c_str(), "%c:%d:%d", &op, &a, &b);
        switch (op) {
        case 'n': if (!t) { if (b) t.emplace(std::size_t(a), value<H>(b)); else t.emplace(std::size_t(a)); } else if (b) t->set_leaf_nodes(a, value<H>(b)); else t->set_leaf_nodes(a); break;
        case 's': t->set_leaf(a - 1, value<H>(b)); ++sets; break;
        case 'u': if (updates++ % 2) t->update(); else t->update(*hasher); break;
        case 'c': { tree x(*t); t.emplace(x); break; }
        case 'm': { tree x(std::move(*t)); t.emplace(std::move(x)); break; }
        case 'a': { tree x(3); x = *t; tree y(7); y = x; t.emplace(y); break; }
        case 'b': { tree x(3); x = std::move(*t); t.reset(); t.emplace(1); *t = std::move(x); tree& self = *t; *t = self; break; }
        case 'q': case 'l': {
            size_t ht = t->tree_height(), n = t->leaf_count();
            if (n != (size_t(1) << ht) || t->node_count() != 2 * n - 1) out += "shape ";
            for (size_t d = op == 'l' ? ht : 0; d <= ht; ++d) {
                auto ly = t->get_layer(d);
                if (ly.size() != (size_t(1) << d)) out += "size ";
                for (size_t i = 0; i < ly.size(); ++i) {
                    if (!(ly[i] == t->get_node(d, i))) out += "node ";
                    if (d == ht && !(ly[i] == t->get_leaf(i))) out += "leaf ";
                    out += show(ly[i]) + ",";
                }
                for (size_t i = 0; i < ly.size(); ++i) for (size_t j = i; j <= ly.size(); ++j) if (j - i < 3 || j == ly.size()) {
                    auto r = t->get_node_range(d, i, j);
                    if (r.size() != j - i || (j > i && (!(r[0] == ly[i]) || !(r[j - i - 1] == ly[j - 1])))) out += "range ";
                }
                out += ";";
            }
            if (op == 'q') { out += show(t->root()); if (t->has_root() != !(t->root() == H {})) out += " has_root"; if (t->data().size() != t->node_count() || !(t->data()[0] == t->root())) out += " data"; }
            out += " ";
        }
        }
    }
    if (!out.empty()) out.pop_back();
    return out;
}
int main()
{
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string a; is >> a;
        std::string r;
        try { r = a == "sha1" ? run<dt::hash_function::sha1>(is) : a == "sha256" ? run<dt::hash_function::sha256>(is) : run<dt::hash_function::sha512>(is); }
        catch (const std::exception& e) { r = std::string("threw ") + e.what(); }
        std::cout << r << std::endl;
    }
}
