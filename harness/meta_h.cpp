// Metafiles: built through the interface, written, read back. One JSON request per line, one JSON answer per line; all texts in hexadecimal.
//  argv[1]: scratch directory
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include <dottorrent/magnet_uri.hpp>
#include <dottorrent/metafile.hpp>
#include <dottorrent/metafile_parsing.hpp>
#include <dottorrent/metafile_serialization.hpp>
#include "tight.hpp"
namespace dt = dottorrent; namespace fs = std::filesystem; using J = nlohmann::json;
static std::string hx(std::string_view s) { static const char* d = "0123456789abcdef"; std::string r; r.reserve(s.size() * 2); for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static std::string un(const J& j) { auto& s = j.get_ref<const std::string&>(); std::string r; r.reserve(s.size() / 2); for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += char(nib(s[i]) * 16 + nib(s[i + 1])); return r; }
static std::string sp(std::span<const std::byte> s) { return hx({reinterpret_cast<const char*>(s.data()), s.size()}); }
static fs::path path(const J& j) { fs::path p; for (auto& c : j) p /= un(c); return p; }
static J comps(const fs::path& p) { J r = J::array(); for (auto& c : p) r.push_back(hx(c.string())); return r; }
static fs::path scratch; static unsigned counter = 0;
static dt::protocol proto(const std::string& s) { return s == "v1" ? dt::protocol::v1 : s == "v2" ? dt::protocol::v2 : dt::protocol::hybrid; }
static std::string pname(dt::protocol p) { return p == dt::protocol::v1 ? "v1" : p == dt::protocol::v2 ? "v2" : p == dt::protocol::hybrid ? "hybrid" : "none"; }
static dt::metafile make(const J& j, bool v1, bool v2)
{
    dt::metafile m; std::size_t n = 0;
    for (auto& t : j["tiers"]) { for (auto& u : t) m.add_tracker(tight(un(u)), n); ++n; }
    m.set_comment(tight(un(j["comment"]))); m.set_created_by(tight(un(j["creator"]))); if (j["date"].get<std::int64_t>()) m.set_creation_date(std::time_t(j["date"].get<std::int64_t>()));
    for (auto& x : j["coll"]) m.add_collection(tight(un(x)));
    for (auto& x : j["http"]) m.add_http_seed(tight(un(x)));
    for (auto& x : j["web"]) m.add_web_seed(tight(un(x)));
    for (auto& x : j["nodes"]) m.add_dht_node(tight(un(x[0])), x[1].get<std::uint16_t>());
    for (auto& x : j["similar"]) { if (x[0] == "v1") m.add_similar_torrent(dt::info_hash(dt::protocol::v1, un(x[1]))); else if (x[0] == "v2") m.add_similar_torrent(dt::info_hash(dt::protocol::v2, un(x[1]))); else m.add_similar_torrent(dt::info_hash(un(x[1]), un(x[2]))); }
    m.set_name(tight(un(j["name"]))); m.set_private(j["priv"] == 1); m.set_source(tight(un(j["source"]))); m.enable_cross_seeding(j["cross"] == 1);
    for (auto& [k, v] : j["other"].items()) m.other_info_fields().insert_or_assign(un(J(k)), bencode::decode_value(un(v)));
    auto& s = m.storage();
    if (!j["dir"].get<std::string>().empty()) { auto d = scratch / un(j["dir"]); fs::create_directories(d); s.set_root_directory(d); }
    s.set_piece_size(j["psize"].get<std::size_t>());
    s.set_file_mode(j["mode"] == "single" ? dt::file_mode::single : dt::file_mode::multi);
    for (auto& f : j["files"]) {
        std::optional<dt::file_attributes> a; if (!f["attr"].is_null()) a = dt::make_file_attributes(f["attr"].get<std::string>());
        std::optional<fs::path> l; if (!f["link"].is_null()) l = path(f["link"]);
        dt::file_entry e(path(f["path"]), f["size"].get<std::size_t>(), a, l);
        for (auto& [k, v] : f["sums"].items()) { auto b = un(v); e.add_checksum(dt::make_checksum(k, std::span(reinterpret_cast<const std::byte*>(b.data()), b.size()))); }
        if (v2 && !f["root"].is_null()) {
            e.set_pieces_root(dt::sha256_hash(un(f["root"])));
            std::vector<dt::sha256_hash> ls; for (auto& x : f["layer"]) ls.emplace_back(un(x));
            e.set_piece_layer(ls);
        }
        s.add_file(std::move(e));
    }
    if (v1) { s.allocate_pieces(); n = 0; for (auto& x : j["pieces"]) s.set_piece_hash(n++, dt::sha1_hash(un(x))); }
    return m;
}
static J show(const dt::metafile& m)
{
    J o; o["tiers"] = J::array(); for (auto& t : dt::as_nested_vector(m.trackers())) { J a = J::array(); for (auto& u : t) a.push_back(hx(u)); o["tiers"].push_back(a); }
    o["comment"] = hx(m.comment()); o["creator"] = hx(m.created_by()); o["date"] = m.creation_date().count();
    auto list = [](auto& c) { J a = J::array(); for (auto& x : c) a.push_back(hx(x)); return a; };
    o["http"] = list(m.http_seeds()); o["web"] = list(m.web_seeds());
    { std::vector<std::string> v; for (auto& x : m.collections()) v.push_back(hx(x)); std::sort(v.begin(), v.end()); o["coll"] = v; }
    { std::vector<std::string> v; for (auto& x : m.similar_torrents()) v.push_back(pname(x.version()) + (x.version() == dt::protocol::v2 ? sp(std::span<const std::byte>(x.v2())) : sp(std::span<const std::byte>(x.v1())))); std::sort(v.begin(), v.end()); o["similar"] = v; }
    o["nodes"] = J::array(); for (auto& x : m.dht_nodes()) o["nodes"].push_back({hx(x.url), x.port});
    o["name"] = hx(m.name()); o["priv"] = int(m.is_private()); o["source"] = hx(m.source()); o["cross"] = int(m.is_cross_seeding_enabled());
    o["other"] = J::object(); for (auto& [k, v] : m.other_info_fields()) o["other"][hx(k)] = hx(bencode::encode(v));
    auto& s = m.storage(); o["mode"] = s.file_mode() == dt::file_mode::single ? "single" : s.file_mode() == dt::file_mode::multi ? "multi" : "empty";
    o["psize"] = m.piece_size(); o["dir"] = s.has_root_directory(); o["total"] = m.total_file_size(); o["regular"] = m.total_regular_file_size();
    o["files"] = J::array();
    for (auto& f : s) {
        J e; e["path"] = comps(f.path()); e["size"] = f.file_size(); e["attr"] = f.attributes() ? J(dt::to_string(*f.attributes())) : J(); e["link"] = f.is_symlink() && f.symlink_path() ? comps(*f.symlink_path()) : J();
        e["sums"] = J::object(); for (auto& [k, v] : f.checksums()) { e["sums"][k] = sp(std::as_const(*v).value()); if (v->name() != k) e["sums"]["!"] = std::string(v->name()); }
        bool v2 = f.has_v2_data() && f.file_size() > 0;
        e["root"] = v2 ? J(sp(std::span<const std::byte>(f.pieces_root()))) : J(); e["layer"] = J::array(); if (v2) for (auto& x : f.piece_layer()) e["layer"].push_back(sp(std::span<const std::byte>(x)));
        o["files"].push_back(e);
    }
    o["pieces"] = J::array(); for (auto& p : s.pieces()) o["pieces"].push_back(sp(std::span<const std::byte>(p)));
    return o;
}
// reads from a buffer of exactly the size, which is gone when the metafile is used
static dt::metafile read_sv(const std::string& b) { auto e = std::make_unique<char[]>(b.size()); std::memcpy(e.get(), b.data(), b.size()); return dt::read_metafile(std::string_view(e.get(), b.size())); }
static dt::metafile read_span(const std::string& b) { auto e = std::make_unique<std::byte[]>(b.size()); std::memcpy(e.get(), b.data(), b.size()); return dt::read_metafile(std::span<const std::byte>(e.get(), b.size())); }
static dt::metafile read_is(const std::string& b) { std::istringstream is(b); return dt::read_metafile(is); }
static J hashes(const dt::metafile& m)
{
    J o; o["proto"] = pname(m.storage().protocol());
    o["h1"] = sp(std::span<const std::byte>(dt::info_hash_v1(m)));
    if (o["proto"].get<std::string>() != "v1") { auto h = dt::info_hash_v2(m); o["h2"] = sp(std::span<const std::byte>(h)); o["t2"] = sp(std::span<const std::byte>(dt::truncate_v2_hash(h))); }
    return o;
}
static J reads(const std::string& b, bool& same)
{
    auto m = read_sv(b); auto o = show(m); same = true;
    { auto x = read_span(b); same = same && show(x) == o && x == m; }
    { auto x = read_is(b); same = same && show(x) == o && x == m; }
    auto f = scratch / ("r" + std::to_string(getpid()) + "-" + std::to_string(counter++ % 4) + ".torrent");
    { std::ofstream os(f, std::ios::binary); os << b; }
    { auto x = dt::load_metafile(f); same = same && show(x) == o && x == m; }
    return o;
}
static J magnets(const dt::metafile& m)
{
    J o; for (auto p : {dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid}) { auto g = dt::make_magnet_uri(m, p); J e; auto list = [](const auto& c) { J a = J::array(); for (auto& x : c) a.push_back(hx(x)); return a; };
        e["xt"] = list(g.topics()); e["dn"] = hx(g.display_name()); e["tr"] = list(g.trackers()); e["ws"] = list(g.web_seeds()); e["pe"] = list(g.peer_adresses()); e["text"] = hx(dt::encode_magnet_uri(g)); o[pname(p)] = e; }
    return o;
}
static J write(const J& q)
{
    J o; auto ps = q["p"].get<std::string>(); auto p = proto(ps);
    auto m = make(q["m"], ps != "v2", ps != "v1"); auto b = dt::write_metafile(m, p); o["w"] = hx(b); o["same"] = J::array();
    auto bad = [&](const char* s) { o["same"].push_back(s); };
    { std::ostringstream os; dt::write_metafile_to(os, m, p); if (os.str() != b) bad("ostream"); }
    { std::string s; dt::write_metafile_to(std::back_inserter(s), m, p); if (s != b) bad("iterator"); }
    { std::string s(b.size() + 1, '!'); dt::write_metafile_to(s.begin(), m, p); if (s != b + '!') bad("buffer"); }
    if (p == dt::protocol::v1 && dt::write_metafile(m) != b) bad("default");
    auto f = scratch / ("w" + std::to_string(getpid()) + "-" + std::to_string(counter++ % 4) + ".torrent");
    { std::ofstream os(f, std::ios::binary); os << std::string(b.size() + 50, '?'); }
    dt::save_metafile(f, m, p); { std::ifstream is(f, std::ios::binary); std::string s(std::istreambuf_iterator<char>(is), {}); if (s != b) bad("save"); }
    { auto a = make(q["m"], true, true); if (dt::write_metafile(a, p) != b) bad("a storage with the data of both protocols"); dt::metafile c(a); if (dt::write_metafile(c, p) != b) bad("a copy"); }
    o["json"] = hx(dt::serialize_json(m, p)); { std::ostringstream os; dt::serialize_json_to(os, m, p); if (hx(os.str()) != o["json"].get<std::string>()) bad("json"); }
    { // there is nothing to write for no protocol
        auto refused = [&](const char* s, auto f) { try { f(); bad(s); } catch (const std::invalid_argument&) {} }; auto none = dt::protocol::none; std::ostringstream os; std::string t;
        refused("writing for no protocol", [&] { (void)dt::write_metafile(m, none); }); refused("writing to a stream for no protocol", [&] { dt::write_metafile_to(os, m, none); });
        refused("writing to an iterator for no protocol", [&] { dt::write_metafile_to(std::back_inserter(t), m, none); }); refused("JSON for no protocol", [&] { (void)dt::serialize_json(m, none); });
        refused("saving for no protocol", [&] { dt::save_metafile(f, m, none); }); { std::ifstream is(f, std::ios::binary); std::string s(std::istreambuf_iterator<char>(is), {}); if (s != b) bad("a file saved for no protocol"); }
        if (!t.empty() || !os.str().empty()) bad("output for no protocol");
        if (m.storage().protocol() == none) refused("a magnet link for an unfinished metafile", [&] { (void)dt::make_magnet_uri(m); });
        if (m.piece_count() != m.storage().piece_count()) bad("piece_count");
    }
    o["hash"] = hashes(m); o["magnet"] = m.storage().protocol() == dt::protocol::none ? J() : magnets(m);
    if (q.value("read", true)) {
        bool same; o["read"] = reads(b, same); if (!same) bad("the ways of reading");
        auto r = read_sv(b); o["rw"] = hx(dt::write_metafile(r, p)); o["rhash"] = hashes(r);
        if (q.value("edits", false)) {
            { // cross seeding ties the info dictionary to the trackers
                auto c = m; o["cross"] = J::array(); auto step = [&](const char* what) { o["cross"].push_back({{"what", what}, {"w", hx(dt::write_metafile(c, p))}, {"hash", hashes(c)}}); };
                c.enable_cross_seeding(false); step("off"); c.enable_cross_seeding(); step("on"); c.add_tracker("http://other"); step("on, another tracker"); c.set_comment("other"); c.set_creation_date(std::time_t(78)); c.add_web_seed("other"); step("on, another tracker, other fields");
                c.remove_tracker("http://other"); step("on, other fields"); c.enable_cross_seeding(false); step("off, other fields"); c.add_tracker("http://other"); step("off, other fields, another tracker");
                auto d = m; d.clear_trackers(); d.enable_cross_seeding(); auto ts = std::vector<dt::announce_url>(m.trackers().begin(), m.trackers().end()); auto nt = m.trackers().tier_count();
                for (std::size_t t = 0; t < nt; ++t) for (auto i = ts.size(); i-- > 0;) if (ts[i].tier == t) d.add_tracker(ts[i]);
                c = d; step("on, trackers added in another order");
                static const std::vector<std::string> alike = {"http://tracker.example/a/announce", "http://tracker.example/b/announce", "https://tracker.example/a/announce", "http://tracker.example:80/a/announce", "http://tracker.example/a/announce?k=1",
                    "http://tracker.example/a/announce?k=2", "http://tracker.example/a/announce/", "http://tracker.example/A/announce", "http://tracker.example./a/announce", "http://racker.example/a/announce", "udp://tracker.example/a/announce", "http://tracker.example"};
                auto only = [&](std::vector<std::size_t> k) { c = m; c.enable_cross_seeding(); c.clear_trackers(); for (auto i : k) c.add_tracker(alike[i]); std::string t = "on, only"; for (auto i : k) t += " " + alike[i]; return t; };
                for (std::size_t i = 0; i < alike.size(); ++i) step(only({i}).c_str());
                step(only({0, 1}).c_str()); step(only({0, 2}).c_str()); step(only({1, 2}).c_str());
                only({0}); c.enable_cross_seeding(false); step("off, only the first of them"); step(only({0}).c_str());
            }
            o["edits"] = J::array();
            auto step = [&](const char* what) { o["edits"].push_back({{"what", what}, {"w", hx(dt::write_metafile(r, p))}, {"hash", hashes(r)}}); };
            r.add_tracker("http://new"); r.set_comment("new"); r.set_created_by("new"); r.set_creation_date(std::time_t(77)); r.add_collection("new"); r.add_http_seed("new"); r.add_web_seed("new"); r.add_dht_node("new", 1); r.add_similar_torrent(dt::info_hash(dt::sha1_hash {})); step("fields outside the info dictionary");
            r.set_source("newer"); step("source"); r.set_name("newer name"); step("name"); r.set_private(!r.is_private()); step("private"); r.other_info_fields().insert_or_assign("newkey", bencode::decode_value("i5e")); step("other");
            for (auto& f : r.storage()) if (f.file_size() && !f.is_padding_file()) { auto g = f; if (p != dt::protocol::v1) g.set_pieces_root(dt::sha256_hash(std::string(32, 'n'))); r.storage().remove_file(f); r.storage().add_file(g); break; }
            if (p != dt::protocol::v2 && r.storage().pieces().size()) r.storage().set_piece_hash(0, dt::sha1_hash(std::string(20, 'n'))); step("hashes");
        }
    }
    return o;
}
static J read(const J& q)
{
    J o; auto b = un(q["b"]); bool same = true; int thrown = 0;
    for (auto f : {read_sv, read_span, read_is}) { try { (void)f(b); } catch (const std::exception&) { ++thrown; } }
    if (thrown && thrown < 3) o["mixed"] = thrown;
    try { o["read"] = reads(b, same); } catch (const std::exception& e) { o["refused"] = e.what(); return o; }
    o["same"] = same;
    if (q.contains("p")) { auto m = read_sv(b); o["rw"] = hx(dt::write_metafile(m, proto(q["p"]))); o["rhash"] = hashes(m); }
    return o;
}
int main(int, char** argv)
{
    scratch = argv[1]; std::string line;
    // nothing but answers on the standard output: what the library writes there is caught
    std::ostream out(std::cout.rdbuf()); std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
    while (std::getline(std::cin, line)) {
        J r; try { J q = J::parse(line); r = q["op"] == "write" ? write(q) : read(q); } catch (const std::exception& e) { r = {{"threw", hx(e.what())}}; }
        if (r.contains("refused")) r["refused"] = hx(r["refused"].get<std::string>());
        if (!sink.str().empty()) { r["stdout"] = hx(sink.str().substr(0, 60)); sink.str(""); }
        out << r.dump() << std::endl;
    }
}
