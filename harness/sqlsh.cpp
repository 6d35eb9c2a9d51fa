// Not a check: an SQL shell over the public API, for looking at one behaviour.
#include "msi.hpp"
#include <iostream>
using namespace msi;
int main(int argc, char **argv) {
    std::string path = argc > 1 ? argv[1] : "/tmp/w/sqlsh.msi", l;
    Db db = open(path, LIBMSI_DB_FLAGS_CREATE);
    while (std::getline(std::cin, l)) {
        if (l.empty()) continue;
        uint64_t c0 = criticals();
        if (l == "commit") printf("commit -> %d\n", commit(db));
        else if (l.rfind("reopen", 0) == 0) { db.reset(); int e; db = open(path, l.size() > 7 ? atoi(l.c_str() + 7) : LIBMSI_DB_FLAGS_TRANSACT, &e); printf("reopen -> %d\n", e); }
        else if (l.rfind("export ", 0) == 0) { int e = export_table(db, l.substr(7), "/tmp/w/x.idt"); printf("export -> %d\n%s", e, readfile("/tmp/w/x.idt")->c_str()); }
        else if (l.rfind("import ", 0) == 0) printf("import -> %d\n", import_table(db, l.substr(7)));
        else {
            Row p;
            size_t b = l.find(" | ");
            if (b != std::string::npos) {
                std::stringstream ss(l.substr(b + 3)); std::string t;
                while (std::getline(ss, t, ',')) p.push_back(t == "-" ? Val::N() : t[0] == '\'' ? Val::S(t.substr(1)) : t[0] == '#' ? Val::B(t.substr(1)) : Val::I(atoi(t.c_str())));
                l = l.substr(0, b);
            }
            if (!strncasecmp(l.c_str(), "select", 6)) {
                Res r = query(db, l, p);
                printf("%s -> err %d %s", l.c_str(), r.err, r.where);
                for (size_t i = 0; i < r.names.size(); i++) printf(" %s:%s", r.names[i].c_str(), i < r.types.size() ? r.types[i].c_str() : "?");
                printf("\n");
                for (auto &x : r.rows) printf("    %s\n", show(x).c_str());
            } else printf("%s -> %d\n", l.c_str(), exec(db, l, p));
        }
        if (criticals() != c0) printf("    critical: %s\n", last_critical().c_str());
        fflush(stdout);
    }
}
