// A set of files for the checks of single calls: two databases, one that does not fit, transforms.
#pragma once
#include "exercise.hpp"
#include "msiwrite.hpp"

namespace fileset {
using namespace msiwrite;
// the files every execution starts from, made once
struct Files { std::string base, other, odd, mst, badmst, storage, summary; };
inline Files &files() { static Files f; return f; }

inline void start(LibmsiDatabase *db, bool odd) {
    exec(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `N` LONG, `S` CHAR(20), `D` OBJECT PRIMARY KEY `K`)");
    exec(db, "CREATE TABLE `U` (`P` CHAR(20) NOT NULL LOCALIZABLE, `Q` SHORT NOT NULL, `R` LONGCHAR PRIMARY KEY `P`, `Q`)");
    static const char *s[] = {"one", "two", "three"};
    for (int i = 0; i < 3; i++) exec(db, "INSERT INTO `T` (`K`,`N`,`S`,`D`) VALUES (?,?,?,?)", {Val::I(i + 1 + odd), i == 2 ? Val::N() : Val::I(70000 + i % 2), Val::S(s[i]), i == 2 ? Val::N() : Val::B(std::string("object ") + s[i])});
    for (int i = 0; i < 3; i++) exec(db, "INSERT INTO `U` (`P`,`Q`,`R`) VALUES (?,?,?)", {Val::S(fmt("p%d", i)), Val::I(i), Val::S(odd ? "odd" : "even")});
    exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('plain',?)", {Val::B(std::string(5000, 'p'))});
    if (odd) exec(db, "CREATE TABLE `New` (`A` CHAR(8) NOT NULL, `B` OBJECT PRIMARY KEY `A`)"), exec(db, "INSERT INTO `New` (`A`,`B`) VALUES ('a',?)", {Val::B("object a")});
    exec(db, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES ('sub',?)", {Val::B(storage_bytes())});
    summary(LIBMSI_PROPERTY_TITLE, Val::S("title")).run(db, "");
    summary(LIBMSI_PROPERTY_CREATED_TM, Val::N()).run(db, "");
}
inline Database transformed() {
    Database d;
    d.tables["T"].cols = {{"K", 0x502 | 0x2000}, {"N", 0x104 | 0x1000}, {"S", 0xd00 | 0x1000 | 20}, {"D", 0x900 | 0x1000}};
    return d;
}
inline void make_files() {
    const char *b = getenv("MC_SCRATCH");
    std::string dir = b ? b : "/tmp";
    auto &f = files();
    f.storage = storage_bytes();
    for (int i = 0; i < 2; i++) {
        std::string p = dir + "/base.msi";
        { Db d = open(p, LIBMSI_DB_FLAGS_CREATE); start(d, i); commit(d); }
        (i ? f.other : f.base) = readfile(p).value_or("");
        unlink(p.c_str());
    }
    {   // a database in which the tables of the same names have other columns
        std::string p = dir + "/odd.msi";
        {
            Db d = open(p, LIBMSI_DB_FLAGS_CREATE);
            exec(d, "CREATE TABLE `T` (`K` SHORT NOT NULL, `N` CHAR(8) PRIMARY KEY `K`)");
            exec(d, "INSERT INTO `T` (`K`,`N`) VALUES (1,'x')");
            exec(d, "CREATE TABLE `U` (`P` CHAR(20) NOT NULL LOCALIZABLE, `Q` SHORT NOT NULL, `R` LONGCHAR PRIMARY KEY `P`)");
            exec(d, "INSERT INTO `U` (`P`,`Q`) VALUES ('p1',1)");
            commit(d);
        }
        f.odd = readfile(p).value_or("");
        unlink(p.c_str());
    }
    // transforms of T: a row gone, a row changed, a row new with a stream, a column new
    Database a = transformed(), z = a;
    a.row("T", {Val::I(1), Val::I(70000), Val::S("one"), Val::B("object one")});
    a.row("T", {Val::I(2), Val::I(70001), Val::S("two"), Val::B("object two")});
    a.row("T", {Val::I(3), Val::N(), Val::S("three"), Val::N()});
    z.tables["T"].cols.push_back({"X", 0xd00 | 0x1000 | 8});
    z.row("T", {Val::I(2), Val::I(5), Val::S("changed"), Val::B("object two"), Val::S("x")});
    z.row("T", {Val::I(3), Val::N(), Val::S("three"), Val::N(), Val::N()});
    z.row("T", {Val::I(7), Val::N(), Val::S("new"), Val::B("object new"), Val::S("y")});
    z.tables["W"].cols = {{"A", 0xd00 | 0x2000 | 8}, {"B", 0x502 | 0x1000}};
    z.row("W", {Val::S("w"), Val::I(1)});
    Cfb t = transform(a, z, Style{});
    t.raw("\5SummaryInformation", transform_summary());
    f.mst = t.bytes();
    f.badmst = f.mst.substr(0, f.mst.size() / 2);
}
} // namespace fileset
