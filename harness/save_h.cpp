// Saving and loading metafiles on a failing device. argv[1]: scratch directory. One answer per line:
//  sizes                      lengths of the metafiles as written
//  stream <m> <k>             writes metafile m to a stream that takes k bytes -> <good> <bytes taken> <prefix?>
//  seq <op> ...               calls on one path (save:m:k, bad, saveat:w, loadat:w, load:k, remove); after each: <ok> <what> <file>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <csignal>
#include <cerrno>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <dottorrent/metafile.hpp>
namespace dt = dottorrent; namespace fs = std::filesystem;
static long rlimit_at = -1, pos_at = 0; static int rfd = -1; static unsigned injected = 0, shorten = 0; static std::string watched;
// reads of the watched file fail from a position on, and give fewer bytes than asked for
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    if (!watched.empty() && fd > 2) {
        char l[64], t[4096]; std::snprintf(l, sizeof l, "/proc/self/fd/%d", fd); auto r = ::readlink(l, t, sizeof t);
        if (r > 0 && std::string_view(t, r) == watched) {
            long p = ::lseek(fd, 0, SEEK_CUR);
            if (shorten && n > shorten) n = shorten;
            struct stat st; if (::fstat(fd, &st) == 0 && p < st.st_size && rlimit_at >= 0) { if (p >= rlimit_at) { ++injected; errno = EIO; return -1; } if (long(n) > rlimit_at - p) n = rlimit_at - p; }
        }
    }
    return ::syscall(SYS_read, fd, b, n);
}
struct limited : std::streambuf {
    std::string got; long k; explicit limited(long k) : k(k) {}
    int_type overflow(int_type c) override { if (c == traits_type::eof()) return 0; if (k >= 0 && long(got.size()) >= k) return traits_type::eof(); got += char(c); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { std::streamsize i = 0; while (i < n && overflow((unsigned char)s[i]) != traits_type::eof()) ++i; return i; }
};
static dt::metafile meta(int m)
{
    dt::metafile x; x.set_name("n" + std::to_string(m)); x.storage().set_piece_size(16384); x.storage().set_file_mode(dt::file_mode::multi);
    x.storage().add_file(dt::file_entry("a", 16384)); x.storage().allocate_pieces(); x.storage().set_piece_hash(0, dt::sha1_hash(std::string(20, 'a')));
    x.add_tracker("http://t"); 
    const std::size_t want[] = {0, 0, 4096, 8192, 20000, 150000};
    if (want[m]) { x.set_comment(std::string(1000, 'c')); auto d = want[m] - dt::write_metafile(x).size(); x.set_comment(std::string(1000 + d, 'c')); auto s = dt::write_metafile(x).size(); x.set_comment(std::string(1000 + d - (s - want[m]), 'c')); }
    return x;
}
int main(int, char** argv)
{
    std::signal(SIGXFSZ, SIG_IGN);
    fs::path dir = argv[1]; std::vector<dt::metafile> ms; std::vector<std::string> bs; for (int m = 1; m <= 5; ++m) { ms.push_back(meta(m)); bs.push_back(dt::write_metafile(ms.back())); }
    std::string line; unsigned n = 0;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); std::string w; in >> w; std::ostringstream out;
        if (w == "sizes") for (auto& b : bs) out << b.size() << ' ';
        else if (w == "stream") {
            int m; long k; in >> m >> k; limited b(k); std::ostream os(&b); bool threw = false;
            try { dt::write_metafile_to(os, ms[m - 1]); os.flush(); } catch (const std::exception&) { threw = true; }
            out << (os.good() && !threw) << ' ' << b.got.size() << ' ' << (bs[m - 1].compare(0, b.got.size(), b.got) == 0);
        } else if (w == "seq") {
            auto d = dir / ("s" + std::to_string(getpid())); fs::remove_all(d); fs::create_directories(d / "dir"); auto p = d / "f.torrent";
            auto which = [&](const dt::metafile& x) { for (int i = 0; i < 5; ++i) if (ms[i] == x) return i + 1; return 99; };
            auto content = [&]() -> int { if (!fs::exists(p)) return 0; std::ifstream is(p, std::ios::binary); std::string s(std::istreambuf_iterator<char>(is), {}); for (int i = 0; i < 5; ++i) if (bs[i] == s) return i + 1; return -1; };
            auto place = [&](const std::string& x) { return x == "dir" ? d / "dir" : x == "full" ? fs::path("/dev/full") : d / "no" / "f.torrent"; };
            while (in >> w) {
                std::replace(w.begin(), w.end(), ':', ' '); std::istringstream o(w); std::string c; o >> c; bool ok = true; int what = 0; injected = 0; bool skip = false;
                try {
                    if (c == "save") {
                        int m; long k; o >> m >> k; struct rlimit old; ::getrlimit(RLIMIT_FSIZE, &old); struct rlimit lim = old; if (k >= 0) lim.rlim_cur = k; ::setrlimit(RLIMIT_FSIZE, &lim);
                        try { dt::save_metafile(p, ms[m - 1]); } catch (...) { ::setrlimit(RLIMIT_FSIZE, &old); throw; }
                        ::setrlimit(RLIMIT_FSIZE, &old); what = m;
                    } else if (c == "bad") dt::save_metafile(p, ms[0], dt::protocol::none);
                    else if (c == "saveat") { o >> c; dt::save_metafile(place(c), ms[n++ % 5]); }
                    else if (c == "loadat") { o >> c; what = which(dt::load_metafile(place(c))); }
                    else if (c == "load") { o >> rlimit_at; watched = fs::canonical(fs::exists(p) ? p : d).string(); shorten = n++ % 3 == 0 ? 100 : 0; what = which(dt::load_metafile(p)); skip = rlimit_at >= 0 && rlimit_at < long(fs::file_size(p)) && !injected; }
                    else if (c == "remove") fs::remove(p);
                } catch (const std::exception&) { ok = false; }
                watched.clear(); rlimit_at = -1;
                out << (skip ? "?" : ok ? "1" : "0") << ',' << what << ',' << content() << ' ';
            }
            fs::remove_all(d);
        }
        std::cout << out.str() << std::endl;
    }
}
