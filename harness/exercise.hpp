// Every read, and then every kind of change, on a database that may be damaged.
#pragma once
#include "content.hpp"

namespace content {
inline std::string name_of(const Val &v) { return v.k == Val::STR ? v.s : ""; }
inline void read_all(mc::Ctx &c, LibmsiDatabase *db, bool exports = true) {
    Snap s = snap(db);
    c.state(str(s));
    std::vector<std::string> tables;
    for (auto &t : s.tables) tables.push_back(t.first);
    for (auto t : {"_Tables", "_Columns", "_Streams", "_Storages", "_SummaryInformation", "_ForceCodepage", "T", "U", "None"}) tables.push_back(t);
    int n = 0;
    for (auto &t : tables) {
        if (++n > 24) break;
        query(db, "SELECT * FROM `" + t + "` ORDER BY `K`", {}, 5000);
        query(db, "SELECT DISTINCT `S` FROM `" + t + "`", {}, 5000);
        libmsi_database_is_table_persistent(db, t.c_str(), nullptr);
        primary_keys(db, t);
        if (exports) export_table(db, t, c.scratch + "/x.idt");
    }
    query(db, "SELECT `T`.`K`, `U`.`P` FROM `T`, `U` WHERE `T`.`N` = `U`.`Q`", {}, 5000);
    query(db, "SELECT `K` FROM `T` WHERE `S` = 'alpha' OR `N` > 5 OR `L` IS NULL", {}, 5000);
    query(db, "SELECT `Table` FROM `_Columns` WHERE `Table` = 'T' AND `Number` > 1", {}, 5000);
}
inline void change_all(LibmsiDatabase *db, const std::string &tmp) {
    exec(db, "INSERT INTO `T` (`K`,`N`,`L`,`S`,`D`) VALUES ('new',7,70000,'new string',?)", {Val::B("object")});
    exec(db, "UPDATE `T` SET `N` = 3, `S` = 'other'");
    exec(db, "UPDATE `U` SET `Q` = 3 WHERE `P` = 'alpha'");
    exec(db, "INSERT INTO `U` (`P`,`Q`) VALUES ('zeta',4)");
    exec(db, "DELETE FROM `U` WHERE `Q` = 2");
    exec(db, "ALTER TABLE `U` ADD `X` CHAR(20)");
    exec(db, "CREATE TABLE `New` (`A` CHAR(10) NOT NULL, `B` LONG PRIMARY KEY `A`)");
    exec(db, "INSERT INTO `New` (`A`,`B`) VALUES ('a',1)");
    exec(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES ('added',?)", {Val::B("added stream")});
    exec(db, "DELETE FROM `_Streams` WHERE `Name` = 'plain'");
    Si si(libmsi_summary_info_new(db, 5, nullptr));
    if (si) { libmsi_summary_info_set_string(si, LIBMSI_PROPERTY_TITLE, "changed", nullptr); libmsi_summary_info_persist(si, nullptr); }
    exec(db, "DROP TABLE `T`");
    (void)tmp;
}
} // namespace content
