// File entries.
//  mk <root> <file> <options>      describe a file on disk (paths hex-free, no spaces)
//  ops new:k sum:a:v unsum:a root:v layer:n time:v copy move assign massign self
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
#include <dottorrent/file_entry.hpp>
#include <dottorrent/checksum.hpp>
#include "tight.hpp"
namespace dt = dottorrent;
namespace fs = std::filesystem;
static const char* algs[] = {"", "md5", "sha1", "sha256", "custom"};
static int sizes[] = {0, 16, 20, 32, 7};
static std::string opt(const std::optional<dt::file_attributes>& a) { return a ? dt::to_string(*a) : "-"; }
static dt::file_entry mk(int k)
{
    switch (k) {
    case 1: return {"d/one", 11, dt::file_attributes::executable | dt::file_attributes::hidden};
    case 2: return {"d/two", 0, dt::file_attributes::symlink, fs::path("to/there")};
    case 3: return dt::make_padding_file_entry(13);
    default: return {"zero", 12345678901ull};
    }
}
static std::string show(const dt::file_entry& e)
{
    std::ostringstream o; std::string bad;
    int k = e.path() == "zero" ? 0 : e.path() == "d/one" ? 1 : e.path() == "d/two" ? 2 : e.path() == ".pad/13" ? 3 : -1;
    if (k >= 0) {
        auto w = mk(k);
        if (w.file_size() != e.file_size()) bad += "!size"; if (w.attributes() != e.attributes()) bad += "!attributes"; if (w.symlink_path() != e.symlink_path()) bad += "!symlink";
        if (!(w == e) || (w <=> e) != 0) bad += "!equal";
        if (e.is_symlink() != (k == 2) || e.is_executable() != (k == 1) || e.is_hidden() != (k == 1) || e.is_padding_file() != (k == 3)) bad += "!kind";
    }
    for (int j = 0; j < 4; ++j) if (k >= 0 && j != k) { auto w = mk(j); if (w == e || (w < e) != (w.path() < e.path()) || (w > e) != (w.path() > e.path())) bad += "!order"; }
    for (const char* q : {"d", "d-x", "d.one", "d.one/a", "d/one/b", "d/on", "d/onf", "zero.x", "zer", "zero/1"}) { dt::file_entry w(q, 1); if (k >= 0 && (w == e || (w < e) != (w.path() < e.path()) || (e < w) != (e.path() < w.path()))) bad += "!order"; }
    o << "k=" << k << " sums=";
    for (int a = 1; a <= 4; ++a) if (auto* c = e.get_checksum(tight(algs[a]))) {
        if (c->name() != algs[a] || c->value().size() != (size_t)sizes[a]) bad += "!checksum";
        for (auto b : c->value()) if (b != c->value()[0]) bad += "!value";
        if (a == 1 && e.get_checksum(dt::hash_function::md5) != c) bad += "!lookup"; if (a == 2 && e.get_checksum(dt::hash_function::sha1) != c) bad += "!lookup";
        if (!e.checksums().count(algs[a])) bad += "!map";
        o << a << ":" << (int)c->value()[0] << ",";
    } else if (e.checksums().count(algs[a])) bad += "!map";
    o << " v2=" << e.has_v2_data();
    try { int rv = (int)e.pieces_root().data()[0]; o << " root=" << rv << " layer="; for (auto& h : e.piece_layer()) o << (int)h.data()[0] << ","; if (!e.has_v2_data()) bad += "!v2"; }
    catch (const std::invalid_argument&) { o << " none"; if (e.has_v2_data()) bad += "!v2"; }
    o << " time=" << (e.last_modified_time() ? std::to_string(std::chrono::duration_cast<std::chrono::seconds>(e.last_modified_time()->time_since_epoch()).count()) : "-");
    return o.str() + bad;
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string w, out; is >> w;
        try {
            if (w == "mk") {
                std::string root, file; int o; is >> root >> file >> o;
                try {
                    auto e = o == 1 && line.size() % 2 ? dt::make_file_entry(file, root) : dt::make_file_entry(file, root, dt::file_options(o));
                    out = "p=" + e.path().generic_string() + " s=" + std::to_string(e.file_size()) + " a=" + opt(e.attributes()) + " l=" + (e.symlink_path() ? e.symlink_path()->generic_string() : "-");
                    if (e.has_v2_data() || !e.checksums().empty()) out += " extra";
                } catch (const std::invalid_argument&) { out = "refused"; }
                  catch (const fs::filesystem_error& x) { out = std::string("refused with a filesystem error: ") + x.what(); }
            } else {
                std::unique_ptr<dt::file_entry> e;
                while (is >> w) {
                    std::vector<std::string> a; std::string x; std::istringstream ws(w); while (std::getline(ws, x, ':')) a.push_back(x);
                    auto n = [&](int i) { return std::stoi(a[i]); };
                    if (a[0] == "new") e = std::make_unique<dt::file_entry>(mk(n(1)));
                    else if (a[0] == "sum") { std::vector<std::byte> v(sizes[n(1)], std::byte(n(2))); e->add_checksum(dt::make_checksum(tight(algs[n(1)]), v)); }
                    else if (a[0] == "unsum") e->remove_checksum(std::string(algs[n(1)]));
                    else if (a[0] == "root") { dt::sha256_hash h {}; h.data()[0] = std::byte(n(1)); e->set_pieces_root(h); }
                    else if (a[0] == "layer") { std::vector<dt::sha256_hash> l(n(1)); for (int i = 0; i < n(1); ++i) l[i].data()[0] = std::byte(i + 1); e->set_piece_layer(l); }
                    else if (a[0] == "time") e->set_last_modified_time(fs::file_time_type(std::chrono::seconds(n(1))));
                    else if (a[0] == "copy") { auto t = std::make_unique<dt::file_entry>(*e); e = std::make_unique<dt::file_entry>("gone", 1); e = std::move(t); }
                    else if (a[0] == "move") { auto t = std::make_unique<dt::file_entry>(std::move(*e)); e = std::move(t); }
                    else if (a[0] == "assign" || a[0] == "massign") {
                        auto t = std::make_unique<dt::file_entry>("q/other", 0, dt::file_attributes::symlink, fs::path("u")); std::vector<std::byte> v(20, std::byte(99)); t->add_checksum(dt::make_checksum("sha1", v));
                        t->add_checksum(dt::make_checksum("sha512", std::vector<std::byte>(64))); dt::sha256_hash h {}; h.data()[0] = std::byte(77); std::vector<dt::sha256_hash> l(5, h); t->set_pieces_root(h); t->set_piece_layer(l);
                        t->set_last_modified_time(fs::file_time_type(std::chrono::seconds(321)));
                        if (a[0] == "assign") *t = *e; else *t = std::move(*e);
                        e = std::move(t);
                        if (e->get_checksum("sha512")) out += "!kept ";
                    }
                    else if (a[0] == "self") { auto& s = *e; *e = s; *e = std::move(s); }
                }
                out += show(*e);
            }
        } catch (const std::exception& x) { out = std::string("threw ") + x.what(); }
        std::cout << out << std::endl;
    }
}
