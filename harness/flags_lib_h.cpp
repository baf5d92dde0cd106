// The library's own flag enumerations: "<enum> <name> <value>" and combinations
#include <cstdio>
#include <dottorrent/general.hpp>
using namespace dottorrent;
int main()
{
    auto p = [](const char* n, auto v) { printf("%s %d\n", n, (int)v); };
    p("protocol none", protocol::none); p("protocol v1", protocol::v1); p("protocol v2", protocol::v2); p("protocol hybrid", protocol::hybrid);
    p("protocol v1|v2", protocol::v1 | protocol::v2); p("protocol hybrid&v1", protocol::hybrid & protocol::v1); p("protocol hybrid&v2", protocol::hybrid & protocol::v2);
    p("protocol v1&v2", protocol::v1 & protocol::v2); p("protocol hybrid^v1", protocol::hybrid ^ protocol::v1); p("protocol hybrid&~v1", protocol::hybrid & ~protocol::v1);
    file_attributes all[] = {file_attributes::symlink, file_attributes::executable, file_attributes::hidden, file_attributes::padding_file};
    for (int m = 0; m < 16; ++m) { file_attributes a = file_attributes::none; for (int i = 0; i < 4; ++i) if (m >> i & 1) a |= all[i];
        char n[32]; snprintf(n, 32, "attributes %d", m); int r = 0; for (int i = 0; i < 4; ++i) if ((a & all[i]) == all[i]) r |= 1 << i; p(n, r); }
    p("options implied", (int)((file_options::copy_symlinks & file_options::add_attributes) == file_options::add_attributes));
}
