// C26: packages built by wixl are consistent, complete and reproducible.
#include "wixbuild.hpp"
using namespace wixbuild;


int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C26";
    chk.technique = "exhaustive enumeration of sources (directory trees, placements, media, features, kinds of content, broken references), built twice by the real wixl; tables and cabinets read back by readers of their own and compared with the source";
    chk.rule = "what is reported as built has unique keys, references that resolve, sequence numbers matching media and cabinets, exactly the source bytes, the rows the source asks for, and is the same when built again elsewhere; non-trivial: a package came out";
    const std::string media1 = "<Media Id=\"1\" Cabinet=\"a.cab\" EmbedCab=\"yes\"/>";

    // directories, components, files
    chk.spaces.push_back({"layout", "three directories in every tree, two components placed anywhere in three ways, up to two files each, four kinds of code", 6 * 16 * 9 * 9 * 4, [=](mc::Ctx &c, uint64_t i) {
        if (!thorough && deviations(i, {6, 4, 4, 3, 3, 3, 3, 4}) > 4) return;
        int t = i % 6; i /= 6;
        int place[2] = {(int)(i % 4), (int)(i / 4 % 4)}; i /= 16;
        int form[2] = {(int)(i % 3), (int)(i / 3 % 3)}; i /= 9;
        int nf[2] = {(int)((i + 1) % 3), (int)((i / 3 + 2) % 3)}; i /= 9;
        int code = i;
        int up[4] = {-1, 0, t & 1 ? 1 : 0, t / 2};
        static const std::string dn[] = {"TARGETDIR", "D1", "D2", "D3"};
        std::map<std::string, std::string> files, want;
        std::string what = fmt("tree 1<%d 2<%d 3<%d", up[1], up[2], up[3]), comp[2], after;
        Cells comps, filerows;
        for (int k = 0; k < 2; k++) {
            std::string id = fmt("c%d", k), g = code == 0 ? guid(10 + k) : code == 1 ? "*" : code == 2 ? "" : "{" + guid(10 + k) + "}";
            what += fmt("; component %d in %s form %d with %d files code '%s'", k, dn[place[k]].c_str(), form[k], nf[k], g.c_str());
            comp[k] = "<Component Id=\"" + id + "\" Guid=\"" + g + "\">";
            for (int f = 0; f < nf[k]; f++) {
                int n = k * 2 + f;
                // the same name in both components
                std::string name = fmt("n%d.txt", f), fid = fmt("f%d", n), srcf = fmt("src%d", n);
                files[srcf] = data(n + (int)t);
                want[fid] = files[srcf];
                comp[k] += "<File Id=\"" + fid + "\" Name=\"" + name + "\" Source=\"" + srcf + "\"" + (f == 1 && code == 0 ? " KeyPath=\"yes\"" : "") + (f == 1 && code == 3 ? " DefaultVersion=\"1.2\"" : "") + "/>";
                filerows.insert({fid, id, name, fmt("%d", (int)files[srcf].size()), "512", f == 1 && code == 3 ? "1.2" : "-"});
            }
            comp[k] += "</Component>";
            comps.insert({id, dn[place[k]], "0", !nf[k] ? "-" : fmt("f%d", k * 2 + (nf[k] == 2 && code == 0))});
        }
        auto inside = [&](auto &self, int d) -> std::string {
            std::string o = "<Directory Id=\"" + dn[d] + "\" Name=\"" + (d ? fmt("name%d", d) : "SourceDir") + "\">";
            for (int k = 0; k < 2; k++) if (form[k] == 0 && place[k] == d) o += comp[k];
            for (int e = 1; e < 4; e++) if (up[e] == d) o += self(self, e);
            return o + "</Directory>";
        };
        std::string p = media1 + inside(inside, 0), feat = "<Feature Id=\"F\" Level=\"1\">";
        for (int k = 0; k < 2; k++) {
            if (form[k] == 1) p += "<DirectoryRef Id=\"" + dn[place[k]] + "\">" + comp[k] + "</DirectoryRef>";
            if (form[k] == 2) { after += "<Fragment><ComponentGroup Id=\"g" + fmt("%d", k) + "\" Directory=\"" + dn[place[k]] + "\">" + comp[k] + "</ComponentGroup></Fragment>"; feat += fmt("<ComponentGroupRef Id=\"g%d\"/>", k); }
            else feat += fmt("<ComponentRef Id=\"c%d\"/>", k);
        }
        c.step(what);
        Built b = build(c, wix(p + feat + "</Feature>", after), what, files);
        bool must = !(code == 1 && (!nf[0] || !nf[1]));  // a code made from the key path needs one
        c.state(fmt("%d%d", b.ok, must));
        if (!b.ok) { if (must) c.fail("refused", what + ": " + b.err); return; }
        if (!must) c.fail("component code from nothing", what);
        Cells dirs = {{"TARGETDIR", "-", "SourceDir"}};
        for (int d = 1; d < 4; d++) dirs.insert({dn[d], dn[up[d]], fmt("name%d", d)});
        same(c, b.s, "Directory", {"Directory", "Directory_Parent", "DefaultDir"}, dirs, what);
        same(c, b.s, "Component", {"Component", "Directory_", "Attributes", "KeyPath"}, comps, what);
        std::set<std::string> codes;
        for (auto &r : View{b.s}.rows("Component")) {
            if (r.count("ComponentId") && !codes.insert(r["ComponentId"].s).second) c.fail("component code shared", what);
            std::string id = r["Component"].s, g = r.count("ComponentId") ? r["ComponentId"].s : "-", w = "{" + guid(10 + (id == "c1")) + "}";
            if (code != 1 && g != (code == 2 ? "-" : w)) c.fail("component code", id + " " + g + ", " + what);
            if (code == 1 && g == "-") c.fail("component code", id + " has none, " + what);
        }
        same(c, b.s, "File", {"File", "Component_", "FileName", "FileSize", "Attributes", "Version"}, filerows, what);
        same(c, b.s, "FeatureComponents", {"Feature_", "Component_"}, {{"F", "c0"}, {"F", "c1"}}, what);
        cabfiles(c, b, want, what);
    }});

    // media
    static const std::vector<std::vector<int>> ids = {{1}, {2}, {1, 2}, {2, 1}, {1, 2, 3}, {3, 2, 1}, {2, 3, 1}, {1, 3, 2}, {3, 1, 2}, {2, 1, 3}, {10, 9}, {5, 1}};
    chk.spaces.push_back({"media", "up to three media in every order, embedded or not, three files on every disk", ids.size() * 8 * 64 * 2, [=](mc::Ctx &c, uint64_t i) {
        if (!thorough && deviations(i, {12, 8, 4, 4, 4, 2}) > 3) return;
        auto &m = ids[i % ids.size()]; i /= ids.size();
        int emb = i % 8; i /= 8;
        int on[3] = {(int)(i % 4), (int)(i / 4 % 4), (int)(i / 16 % 4)};
        int shape = i / 64;
        if (emb >> m.size()) return;
        std::string p, what = "media", files;
        for (size_t k = 0; k < m.size(); k++) { bool e = emb >> k & 1; what += fmt(" %d%s", m[k], e ? "" : " external"); p += fmt("<Media Id=\"%d\" Cabinet=\"m%d.cab\" DiskPrompt=\"disk %d\"", m[k], m[k], m[k]) + (e ? " EmbedCab=\"yes\"/>" : shape ? " EmbedCab=\"no\"/>" : "/>"); }
        std::map<std::string, std::string> src, want;
        bool missing = false;
        std::map<int, std::set<std::string>> disk;
        for (int f = 0; f < 3; f++) {
            // no disk is disk 1
            int d = on[f] == 0 ? 1 : m[std::min<size_t>(on[f] - 1, m.size() - 1)];
            if (on[f] > (int)m.size()) return;
            what += on[f] ? fmt(", file %d on %d", f, d) : fmt(", file %d anywhere", f);
            missing |= std::find(m.begin(), m.end(), d) == m.end();
            std::string n = fmt("f%d", f);
            src[n] = data(f + 2);
            want[n] = src[n];
            disk[d].insert(n);
            files += fmt("<Component Id=\"c%d\" Guid=\"%s\">", f, guid(10 + f).c_str()) + "<File Id=\"" + n + "\" Source=\"" + n + "\"" + (on[f] ? fmt(" DiskId=\"%d\"", d) : "") + "/></Component>";
        }
        std::string refs = "<Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c2\"/><ComponentRef Id=\"c0\"/><ComponentRef Id=\"c1\"/></Feature>", dir = "<Directory Id=\"TARGETDIR\" Name=\"SourceDir\">" + files + "</Directory>";
        c.step(what);
        Built b = build(c, wix(shape ? dir + refs + p : p + dir + refs), what, src);
        c.state(fmt("%d%d", b.ok, missing));
        if (!b.ok) { if (!missing) c.fail("refused", what + ": " + b.err); return; }
        if (missing) c.fail("disk missing", what);
        Cells rows;
        for (size_t k = 0; k < m.size(); k++) rows.insert({fmt("%d", m[k]), fmt("disk %d", m[k]), (emb >> k & 1 ? "#" : "") + fmt("m%d.cab", m[k])});
        same(c, b.s, "Media", {"DiskId", "DiskPrompt", "Cabinet"}, rows, what);
        cabfiles(c, b, want, what);
        for (auto &d : disk) for (auto &k : b.cabs) if (k.first == fmt("m%d.cab", d.first) || k.first == fmt("#m%d.cab", d.first)) { std::set<std::string> have; for (auto &f : k.second) have.insert(f.name); if (have != d.second) c.fail("file on another disk", what); }
    }});

    // features
    chk.spaces.push_back({"features", "three features in every tree; two components and two groups, the second within the first or not, referred from every set of features", 6 * 64 * 64 * 2, [=](mc::Ctx &c, uint64_t i) {
        if (!thorough && deviations(i, {6, 8, 8, 8, 8, 2}) > 3) return;
        int t = i % 6; i /= 6;
        int up[3] = {-1, t & 1 ? 0 : -1, t / 2 - 1};
        int cm[2] = {(int)(i % 8), (int)(i / 8 % 8)}; i /= 64;
        int gm[2] = {(int)(i % 8), (int)(i / 8 % 8)}; i /= 64;
        bool nested = i;
        std::string what = fmt("features 1<%d 2<%d; c0 in %d, c1 in %d, g0 in %d, g1 in %d%s", up[1], up[2], cm[0], cm[1], gm[0], gm[1], nested ? ", g1 in g0" : "");
        std::map<std::string, std::string> src = {{"f0", data(1)}, {"f1", data(2)}, {"f2", data(5)}, {"f3", data(0)}}, want;
        std::string dir = "<Directory Id=\"TARGETDIR\" Name=\"SourceDir\"><Component Id=\"c0\" Guid=\"" + guid(10) + "\"><File Id=\"f0\" Source=\"f0\"/></Component><Component Id=\"c1\" Guid=\"" + guid(11) + "\"><File Id=\"f1\" Source=\"f1\"/></Component></Directory>";
        std::string after = "<Fragment><ComponentGroup Id=\"g0\" Directory=\"TARGETDIR\"><Component Id=\"c2\" Guid=\"" + guid(12) + "\"><File Id=\"f2\" Source=\"f2\"/></Component>" + (nested ? "<ComponentGroupRef Id=\"g1\"/>" : "") + "</ComponentGroup></Fragment>"
            "<Fragment><ComponentGroup Id=\"g1\" Directory=\"TARGETDIR\"><ComponentRef Id=\"c1\"/><Component Id=\"c3\" Guid=\"" + guid(13) + "\"><File Id=\"f3\" Source=\"f3\"/></Component></ComponentGroup></Fragment>";
        Cells fc;
        auto emit = [&](auto &self, int f) -> std::string {
            std::string o = fmt("<Feature Id=\"F%d\" Level=\"%d\" Title=\"t%d\">", f, f + 1, f), id = fmt("F%d", f);
            for (int k = 0; k < 2; k++) if (cm[k] >> f & 1) { o += fmt("<ComponentRef Id=\"c%d\"/>", k); fc.insert({id, fmt("c%d", k)}); }
            for (int k = 0; k < 2; k++) if (gm[k] >> f & 1) { o += fmt("<ComponentGroupRef Id=\"g%d\"/>", k); if (k == 0) fc.insert({id, "c2"}); if (k == 1 || nested) { fc.insert({id, "c1"}); fc.insert({id, "c3"}); } }
            for (int g = f + 1; g < 3; g++) if (up[g] == f) o += self(self, g);
            return o + "</Feature>";
        };
        std::string feats;
        for (int f = 0; f < 3; f++) if (up[f] < 0) feats += emit(emit, f);
        c.step(what);
        Built b = build(c, wix(media1 + dir + feats, after), what, src, {}, i % 4 == 0);
        accepted(c, b, what);
        Cells rows;
        for (int f = 0; f < 3; f++) rows.insert({fmt("F%d", f), up[f] < 0 ? "-" : fmt("F%d", up[f]), fmt("%d", f + 1), fmt("t%d", f)});
        same(c, b.s, "Feature", {"Feature", "Feature_Parent", "Level", "Title"}, rows, what);
        same(c, b.s, "FeatureComponents", {"Feature_", "Component_"}, fc, what);
        for (auto &r : fc) want["f" + r[1].substr(1)] = src["f" + r[1].substr(1)];
        cabfiles(c, b, want, what);
        c.state(fmt("%d components", (int)want.size()));
    }});
    // feature attributes
    static const Args display = {"", "hidden", "expand", "collapse", "0", "7"}, absent = {"", "allow", "disallow"}, adv = {"", "no", "system", "yes"}, def = {"", "followParent", "local", "source"}, typ = {"", "advertise", "install"};
    chk.spaces.push_back({"attributes", "every combination of the attributes of a feature, beside others", 6 * 3 * 4 * 4 * 3, [=](mc::Ctx &c, uint64_t i) {
        auto pick = [&](const Args &v) { auto x = v[i % v.size()]; i /= v.size(); return x; };
        std::string d = pick(display), a = pick(absent), v = pick(adv), f = pick(def), t = pick(typ);
        auto at = [](const char *n, const std::string &v) { return v.empty() ? std::string() : std::string(" ") + n + "=\"" + v + "\""; };
        std::string attrs = at("Display", d) + at("Absent", a) + at("AllowAdvertise", v) + at("InstallDefault", f) + at("TypicalDefault", t), what = "feature" + attrs;
        c.step(what);
        Built b = build(c, wix("<Directory Id=\"TARGETDIR\" Name=\"SourceDir\"/><Feature Id=\"A\" Display=\"expand\"><Feature Id=\"X\"" + attrs + " Level=\"3\" ConfigurableDirectory=\"TARGETDIR\" Title=\"T\" Description=\"D\"/><Feature Id=\"B\" Display=\"collapse\"/></Feature>"), what, {}, {}, false);
        bool clash = v == "no" && t == "advertise";
        c.state(fmt("%d", b.ok));
        if (!b.ok) { if (!clash) c.fail("refused", what + b.err); return; }
        if (clash) c.fail("contradiction accepted", what);
        int w = (f == "followParent" ? 2 : 0) | (f == "source" ? 1 : 0) | (t == "advertise" ? 4 : 0) | (v == "no" ? 8 : 0) | (a == "disallow" ? 16 : 0) | (v == "system" ? 32 : 0);
        same(c, b.s, "Feature", {"Feature", "Feature_Parent", "Level", "Attributes", "Title", "Description", "Directory_"}, {{"A", "-", "1", "0", "-", "-", "-"}, {"B", "A", "1", "0", "-", "-", "-"}, {"X", "A", "3", fmt("%d", w), "T", "D", "TARGETDIR"}}, what);
        std::map<std::string, int> disp;
        for (auto &r : View{b.s}.rows("Feature")) disp[r["Feature"].s] = r["Display"].i;
        int x = disp["X"];
        bool good = d == "hidden" || d == "0" ? x == 0 : d == "7" ? x == 7 : d == "expand" ? x % 2 == 1 && x > disp["A"] : x % 2 == 0 && x > disp["A"];
        if (!good || disp["A"] % 2 != 1 || disp["B"] % 2 || disp["B"] <= disp["A"] || (x && disp["B"] <= x)) c.fail("feature display", what + fmt(": A %d X %d B %d", disp["A"], x, disp["B"]));
    }});

    // key paths: files, registry values and companion files in every order, one of them named or not
    static mc::Words kw{6, 1, thorough ? 4 : 3};
    chk.spaces.push_back({"keys", "every sequence of files, registry values and companion files in a component, each named as its key path or not", kw.count() * 2, [=](mc::Ctx &c, uint64_t i) {
        bool nested = i & 1;    // registry values within a key
        auto w = kw.at(i / 2);
        static const char *nm[] = {"file", "key file", "registry value", "key registry value", "companion file", "key companion file"};
        std::string in, what = nested ? "nested" : "plain", key = "-";
        std::map<std::string, std::string> src = {{"other", data(3)}}, want = {{"other", src["other"]}};
        int named = 0, kind = 0, n = 0, regs = 0;
        for (int o : w) {
            std::string id = fmt("e%d", n), k = o & 1 ? " KeyPath=\"yes\"" : "";
            what += std::string(", ") + nm[o];
            if (o / 2 == 1) { std::string v = "<RegistryValue Id=\"" + id + "\"" + (nested ? "" : " Root=\"HKLM\"") + fmt(" Key=\"k%d\" Value=\"v\" Type=\"string\"", n) + k + "/>"; in += nested ? "<RegistryKey Root=\"HKLM\" Key=\"top\">" + v + "</RegistryKey>" : v; regs++; }
            else { src[id] = want[id] = data(n + 1); in += "<File Id=\"" + id + "\" Source=\"" + id + "\"" + (o / 2 == 2 ? " CompanionFile=\"other\"" : "") + k + "/>"; }
            if (o & 1) named++;
            n++;
        }
        if (named == 1) for (size_t j = 0; j < w.size(); j++) if (w[j] & 1) { key = fmt("e%d", (int)j); kind = w[j] / 2; }
        if (!named) { key = "e0"; kind = w[0] / 2; }
        c.step(what);
        Built b = build(c, wix(media1 + "<Directory Id=\"TARGETDIR\" Name=\"SourceDir\"><Component Id=\"c0\" Guid=\"" + guid(10) + "\">" + in + "</Component><Component Id=\"c1\" Guid=\"" + guid(11) + "\"><File Id=\"other\" Source=\"other\"/></Component></Directory><Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c0\"/><ComponentRef Id=\"c1\"/></Feature>"), what, src, {}, false);
        bool bad = named > 1 || kind == 2;
        c.state(fmt("%d %d %s %d", b.ok, named, key.c_str(), kind));
        if (!b.ok) { if (!bad) c.fail("refused", what + ": " + b.err); return; }
        if (bad) c.fail(named > 1 ? "two key paths" : "key path that follows another file", what);
        same(c, b.s, "Component", {"Component", "Attributes", "KeyPath"}, {{"c0", kind == 1 ? "4" : "0", key}, {"c1", "0", "other"}}, what);
        Cells files = {{"other", "c1", "-"}};
        n = 0;
        for (int o : w) { if (o / 2 != 1) files.insert({fmt("e%d", n), "c0", o / 2 == 2 ? "other" : "-"}); n++; }
        same(c, b.s, "File", {"File", "Component_", "Version"}, files, what);
        if ((int)View{b.s}.rows("Registry").size() != regs) c.fail("registry values", what);
        cabfiles(c, b, want, what);
    }});

    // kinds of content: each part with the rows it must give
    struct Part { const char *in, *xml; std::map<std::string, std::pair<Args, Cells>> rows; };  // in: p(roduct), c(omponent), f(ile)
    static const std::vector<Part> parts = {
        {"c", "<RegistryValue Id=\"r1\" Root=\"HKLM\" Key=\"k\" Name=\"n\" Value=\"#v\" Type=\"string\"/><RegistryValue Id=\"r2\" Root=\"HKCR\" Key=\"k\" Value=\"12\" Type=\"integer\"/><RegistryValue Id=\"r3\" Root=\"HKCU\" Key=\"k\" Name=\"b\" Value=\"0aff\" Type=\"binary\"/><RegistryValue Id=\"r4\" Root=\"HKU\" Key=\"k\" Name=\"e\" Value=\"%x%\" Type=\"expandable\"/><RegistryValue Id=\"r5\" Root=\"HKMU\" Key=\"k\" Name=\"e\" Value=\"v\" Type=\"string\"/>", {{"Registry", {{"Registry", "Root", "Key", "Name", "Value", "Component_"}, {{"r1", "2", "k", "n", "##v", "c0"}, {"r2", "0", "k", "-", "#12", "c0"}, {"r3", "1", "k", "b", "#x0aff", "c0"}, {"r4", "3", "k", "e", "#%%x%", "c0"}, {"r5", "-1", "k", "e", "v", "c0"}}}}}},
        {"c", "<RegistryKey Root=\"HKCU\" Key=\"top\"><RegistryValue Id=\"q1\" Name=\"n\" Value=\"v\" Type=\"string\"/><RegistryValue Id=\"q2\" Key=\"sub\" Value=\"w\" Type=\"string\"/></RegistryKey>", {{"Registry", {{"Registry", "Root", "Key", "Name", "Value", "Component_"}, {{"q1", "1", "top", "n", "v", "c0"}, {"q2", "1", "top\\sub", "-", "w", "c0"}}}}}},
        {"c", "<RegistryValue Root=\"HKLM\" Key=\"gen\" Name=\"a\" Value=\"1\" Type=\"string\"/><RegistryValue Root=\"HKLM\" Key=\"gen\" Name=\"b\" Value=\"1\" Type=\"string\"/><RegistryValue Root=\"HKLM\" Key=\"gen\" Value=\"1\" Type=\"string\"/><RegistryValue Root=\"HKCU\" Key=\"gen\" Value=\"1\" Type=\"string\"/><RegistryKey Root=\"HKLM\" Key=\"gen2\"><RegistryValue Name=\"a\" Value=\"1\" Type=\"string\"/></RegistryKey>", {{"Registry", {{"Root", "Key", "Name", "Value", "Component_"}, {{"2", "gen", "a", "1", "c0"}, {"2", "gen", "b", "1", "c0"}, {"2", "gen", "-", "1", "c0"}, {"1", "gen", "-", "1", "c0"}, {"2", "gen2", "a", "1", "c0"}}}}}},
        {"f", "<Shortcut Id=\"s1\" Directory=\"D1\" Name=\"short\" WorkingDirectory=\"TARGETDIR\" Icon=\"ic\" IconIndex=\"3\" Advertise=\"yes\" Description=\"d\" Arguments=\"-a\"/>", {{"Shortcut", {{"Shortcut", "Directory_", "Name", "Component_", "Target", "Arguments", "Description", "Icon_", "IconIndex", "WkDir"}, {{"s1", "D1", "short", "c0", "F", "-a", "d", "ic", "3", "TARGETDIR"}}}}, {"Icon", {{"Name"}, {{"ic"}}}}}},
        {"c", "<Shortcut Id=\"s2\" Name=\"short\" Target=\"[#f0]\"/>", {{"Shortcut", {{"Shortcut", "Directory_", "Name", "Component_", "Target", "Icon_"}, {{"s2", "D1", "short", "c0", "[#f0]", "-"}}}}}},
        {"c", "<CreateFolder/><RemoveFolder Id=\"rf\" On=\"uninstall\"/>", {{"CreateFolder", {{"Directory_", "Component_"}, {{"D1", "c0"}}}}, {"RemoveFile", {{"FileKey", "Component_", "FileName", "DirProperty", "InstallMode"}, {{"rf", "c0", "-", "D1", "2"}}}}}},
        {"c", "<ServiceControl Id=\"sc\" Name=\"svc\" Start=\"install\" Stop=\"both\" Remove=\"uninstall\" Wait=\"yes\"><ServiceArgument>x</ServiceArgument><ServiceArgument>y</ServiceArgument></ServiceControl>", {{"ServiceControl", {{"ServiceControl", "Name", "Event", "Arguments", "Wait", "Component_"}, {{"sc", "svc", "163", "x[~]y", "1", "c0"}}}}}},
        {"c", "<ServiceInstall Id=\"si\" Name=\"svc\" DisplayName=\"Svc\" Type=\"ownProcess\" Start=\"auto\" ErrorControl=\"normal\" Interactive=\"yes\" Account=\"acc\" Password=\"pw\" Arguments=\"-x\" Description=\"ds\" LoadOrderGroup=\"grp\"><ServiceDependency Id=\"dep1\"/><ServiceDependency Id=\"dep2\" Group=\"yes\"/></ServiceInstall>", {{"ServiceInstall", {{"ServiceInstall", "Name", "DisplayName", "ServiceType", "StartType", "ErrorControl", "LoadOrderGroup", "Dependencies", "StartName", "Password", "Arguments", "Component_", "Description"}, {{"si", "svc", "Svc", "272", "2", "1", "grp", "dep1[~]+dep2[~][~]", "acc", "pw", "-x", "c0", "ds"}}}}}},
        {"c", "<IniFile Id=\"i1\" Name=\"a.ini\" Section=\"s\" Key=\"k\" Value=\"v\" Action=\"createLine\" Directory=\"D1\"/><IniFile Id=\"i2\" Name=\"b.ini\" Section=\"s\" Key=\"k\" Value=\"v\" Action=\"addTag\" Directory=\"TARGETDIR\"/><IniFile Id=\"i3\" Name=\"c.ini\" Section=\"s\" Key=\"k\" Action=\"removeLine\" Directory=\"D1\"/>", {{"IniFile", {{"IniFile", "FileName", "DirProperty", "Section", "Key", "Value", "Action", "Component_"}, {{"i1", "a.ini", "D1", "s", "k", "v", "1", "c0"}, {"i2", "b.ini", "TARGETDIR", "s", "k", "v", "3", "c0"}}}}, {"RemoveIniFile", {{"RemoveIniFile", "FileName", "DirProperty", "Section", "Key", "Value", "Action", "Component_"}, {{"i3", "c.ini", "D1", "s", "k", "-", "2", "c0"}}}}}},
        {"c", "<ProgId Id=\"App.Doc\" Description=\"doc\"><Extension Id=\"xyz\" ContentType=\"app/xyz\"><Verb Id=\"open\" TargetFile=\"f0\" Argument=\"'%1'\"/><MIME ContentType=\"app/xyz\"/></Extension></ProgId>", {{"Registry", {{"Root", "Key", "Name", "Value", "Component_"}, {{"0", "App.Doc", "-", "doc", "c0"}, {"0", ".xyz", "Content Type", "app/xyz", "c0"}, {"0", ".xyz", "-", "App.Doc", "c0"}, {"0", "App.Doc\\shell\\open", "-", "Open", "c0"}, {"0", "App.Doc\\shell\\open\\command", "-", "\"[#f0]\" '%1'", "c0"}, {"0", "MIME\\Database\\Content Type\\app/xyz", "Extension", ".xyz", "c0"}}}}}},
        {"p", "<Binary Id=\"bin\" SourceFile=\"src1\"/><CustomAction Id=\"ca1\" BinaryKey=\"bin\" DllEntry=\"entry\" Execute=\"deferred\" Return=\"ignore\" Impersonate=\"no\"/><CustomAction Id=\"ca2\" Property=\"P\" Value=\"v\"/><CustomAction Id=\"ca3\" FileKey=\"f0\" ExeCommand=\"run\" Return=\"asyncNoWait\"/><CustomAction Id=\"ca4\" BinaryKey=\"bin\" JScriptCall=\"js\"/>", {{"CustomAction", {{"Action", "Type", "Source", "Target"}, {{"ca1", "3137", "bin", "entry"}, {"ca2", "51", "P", "v"}, {"ca3", "210", "f0", "run"}, {"ca4", "5", "bin", "js"}}}}, {"Binary", {{"Name"}, {{"bin"}}}}}},
        {"p", "<Property Id=\"P1\" Value=\"v\"/><Property Id=\"S1\" Value=\"dflt\"><RegistrySearch Id=\"rs\" Root=\"HKLM\" Key=\"k\" Name=\"n\" Type=\"raw\"/></Property><Condition Message=\"msg\"> VersionNT &gt; 5 </Condition>", {{"AppSearch", {{"Property", "Signature_"}, {{"S1", "rs"}}}}, {"RegLocator", {{"Signature_", "Root", "Key", "Name", "Type"}, {{"rs", "2", "k", "n", "2"}}}}, {"LaunchCondition", {{"Condition", "Description"}, {{"VersionNT > 5", "msg"}}}}}},
        {"p", "<Upgrade Id=\"11111111-1111-1111-1111-1111111111AA\"><UpgradeVersion Minimum=\"1.0\" IncludeMinimum=\"no\" Maximum=\"2.0\" IncludeMaximum=\"yes\" OnlyDetect=\"yes\" MigrateFeatures=\"yes\" Property=\"UP1\"/><UpgradeVersion Minimum=\"3.0\" Property=\"UP2\"/></Upgrade>", {{"Upgrade", {{"UpgradeCode", "VersionMin", "VersionMax", "Attributes", "ActionProperty"}, {{"{11111111-1111-1111-1111-1111111111AA}", "1.0", "2.0", "515", "UP1"}, {"{11111111-1111-1111-1111-1111111111AA}", "3.0", "-", "256", "UP2"}}}}}},
    };
    chk.spaces.push_back({"content", "every set of kinds of content, in one component", 1u << parts.size(), [=](mc::Ctx &c, uint64_t m) {
        if (!thorough && __builtin_popcountll(m) > 3 && __builtin_popcountll(m) < (int)parts.size() - 1) return;
        std::string in[3], what = "content", extra;
        std::map<std::string, std::map<Args, Cells>> want;
        for (size_t k = 0; k < parts.size(); k++) if (m >> k & 1) {
            in[*parts[k].in == 'p' ? 0 : *parts[k].in == 'c' ? 1 : 2] += parts[k].xml;
            what += fmt(" %d", (int)k);
            for (auto &t : parts[k].rows) want[t.first][t.second.first].insert(t.second.second.begin(), t.second.second.end());
        }
        std::map<std::string, std::string> src = {{"f0", data(4)}, {"src1", data(2)}, {"icon", data(1)}};
        bool icon = m >> 3 & 1;
        std::string p = media1 + (icon ? "<Icon Id=\"ic\" SourceFile=\"icon\"/>" : "") + in[0] + "<Directory Id=\"TARGETDIR\" Name=\"SourceDir\"><Directory Id=\"D1\" Name=\"d1\"><Component Id=\"c0\" Guid=\"" + guid(10) + "\"><File Id=\"f0\" Source=\"f0\" KeyPath=\"yes\">" + in[2] + "</File>" + in[1] + "</Component></Directory></Directory><Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c0\"/></Feature>";
        c.step(what);
        Built b = build(c, wix(p), what, src, {}, m % 3 == 0);
        accepted(c, b, what);
        c.state(what);
        // different column lists of one table: merge to rows of the columns both have by checking each is there, and the count
        for (auto &t : want) {
            size_t n = 0;
            for (auto &q : t.second) { Cells have = cells(b.s, t.first, q.first); for (auto &r : q.second) if (!have.count(r)) c.fail("row missing in " + t.first, what + ": " + join(r) + " not in " + show(have)); n += q.second.size(); }
            if (View{b.s}.rows(t.first).size() != n) c.fail("other rows in " + t.first, what + ": " + show(View{b.s}.t(t.first)->rows));
        }
        for (auto t : {"Registry", "Shortcut", "Icon", "CreateFolder", "RemoveFile", "ServiceControl", "ServiceInstall", "IniFile", "RemoveIniFile", "CustomAction", "Binary", "AppSearch", "RegLocator", "LaunchCondition", "Upgrade"}) if (!want.count(t) && !View{b.s}.rows(t).empty()) c.fail("rows nobody asked for", std::string(t) + ", " + what);
        if (icon && b.s.streams["Icon.ic"] != src["icon"]) c.fail("stream content", "icon, " + what);
        if ((m >> 10 & 1) && b.s.streams["Binary.bin"] != src["src1"]) c.fail("stream content", "binary, " + what);
        std::map<std::string, std::string> props = {{"Manufacturer", "m"}, {"ProductLanguage", "1033"}, {"ProductCode", "{" + guid(1) + "}"}, {"ProductName", "n"}, {"ProductVersion", "1.0.0"}, {"UpgradeCode", "{" + guid(2) + "}"}};
        if (m >> 11 & 1) { props["P1"] = "v"; props["S1"] = "dflt"; }
        if (m >> 12 & 1) props["SecureCustomProperties"] = "UP1;UP2";
        Cells pr;
        for (auto &x : props) pr.insert({x.first, x.second});
        same(c, b.s, "Property", {"Property", "Value"}, pr, what);
        cabfiles(c, b, {{"f0", src["f0"]}}, what);
    }});

    // options: architecture, package attributes, several sources, names
    static const Args arch = {"", "x86", "intel", "ia64", "intel64", "x64", "arm"}, win64 = {"", " Win64=\"yes\"", " Win64=\"no\""}, perm = {"", " Permanent=\"yes\""}, scope = {"", "perUser", "perMachine"}, up = {"", " AllowDowngrades=\"yes\"", " AllowSameVersionUpgrades=\"yes\" DowngradeErrorMessage=\"no\"", " DowngradeErrorMessage=\"no\""};
    chk.spaces.push_back({"options", "architecture, component attributes, key path kind, scope, upgrade", 7 * 3 * 2 * 2 * 3 * 5, [=](mc::Ctx &c, uint64_t i) {
        std::string a = arch[i % 7]; i /= 7;
        std::string w = win64[i % 3]; i /= 3;
        std::string pm = perm[i % 2]; i /= 2;
        bool reg = i % 2; i /= 2;
        std::string sc = scope[i % 3]; i /= 3;
        int u = i;
        std::string what = "-a '" + a + "'" + w + pm + (reg ? " registry key path" : "") + " scope " + sc + (u ? up[u - 1] : "");
        std::string src = wix((u ? "<MajorUpgrade" + up[u - 1] + "/>" : "") + media1 + "<Directory Id=\"TARGETDIR\" Name=\"SourceDir\"><Component Id=\"c0\" Guid=\"*\"" + w + pm + "><File Id=\"f0\" Source=\"f0\"/><RegistryValue Id=\"r\" Root=\"HKLM\" Key=\"k\" Type=\"string\" Value=\"v\"" + (reg ? " KeyPath=\"yes\"" : "") + "/></Component></Directory><Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c0\"/></Feature><Property Id=\"S\"><RegistrySearch Id=\"rs\" Root=\"HKCU\" Key=\"k\" Name=\"n\" Type=\"directory\"" + w + "/></Property>");
        size_t at = src.find("InstallerVersion=");
        if (!sc.empty()) src.insert(at, "InstallScope=\"" + sc + "\" Comments=\"com\" Keywords=\"kw\" Description=\"desc\" ");
        c.step(what);
        Built b = build(c, src, what, {{"f0", data(2)}}, a.empty() ? Args{} : Args{"-a", a}, i % 2 == 0);
        if (a == "arm") { if (b.ok) c.fail("unknown architecture accepted", what); return; }
        accepted(c, b, what);
        bool x64 = a == "x64" || a == "ia64" || a == "intel64", wide = w.empty() ? x64 : w.find("yes") != std::string::npos;
        same(c, b.s, "Component", {"Component", "Attributes", "KeyPath"}, {{"c0", fmt("%d", (wide ? 256 : 0) | (pm.empty() ? 0 : 16) | (reg ? 4 : 0)), reg ? "r" : "f0"}}, what);
        same(c, b.s, "RegLocator", {"Signature_", "Root", "Type"}, {{"rs", "1", fmt("%d", wide ? 16 : 0)}}, what);
        std::map<std::string, std::string> props = {{"Manufacturer", "m"}, {"ProductLanguage", "1033"}, {"ProductCode", "{" + guid(1) + "}"}, {"ProductName", "n"}, {"ProductVersion", "1.0.0"}, {"UpgradeCode", "{" + guid(2) + "}"}};
        Cells ur, lc;
        if (u) {
            bool downs = u == 2, samev = u == 3;
            props["SecureCustomProperties"] = std::string("WIX_DOWNGRADE_DETECTED;") + (samev ? "WIX_SAME_VERSION_UPGRADE_DETECTED;" : "") + "WIX_UPGRADE_DETECTED";
            std::string code = "{" + guid(2) + "}";
            ur.insert({code, "1.0.0", "-", downs ? "1" : "2", "WIX_DOWNGRADE_DETECTED"});
            if (samev) ur.insert({code, "1.0.0", "1.0.0", "769", "WIX_SAME_VERSION_UPGRADE_DETECTED"});
            ur.insert({code, "-", "1.0.0", "1", "WIX_UPGRADE_DETECTED"});
            if (u >= 3) lc.insert({"NOT WIX_DOWNGRADE_DETECTED", "no"});
        }
        if (sc == "perMachine") props["ALLUSERS"] = "1";
        Cells pr;
        for (auto &x : props) pr.insert({x.first, x.second});
        same(c, b.s, "Property", {"Property", "Value"}, pr, what);
        same(c, b.s, "Upgrade", {"UpgradeCode", "VersionMin", "VersionMax", "Attributes", "ActionProperty"}, ur, what);
        same(c, b.s, "LaunchCondition", {"Condition", "Description"}, lc, what);
        auto sum = [&](int p, const std::string &v) { std::string h = b.s.summary.count(p) ? b.s.summary[p] : "none"; if (h.find(v) == std::string::npos) c.fail("summary", fmt("%d is ", p) + h + ", not " + v + ", " + what); };
        sum(7, x64 ? "x64;1033" : "Intel;1033");
        sum(3, sc.empty() ? "n" : "desc");
        sum(4, "m");
        sum(5, sc.empty() ? "Installer" : "kw");
        sum(6, sc.empty() ? "This installer database contains the logic and data required to install n." : "com");
        sum(14, "200");
        sum(15, sc == "perUser" ? "10" : "2");
        c.state(what);
    }});

    // broken sources: refused, or consistent
    static const std::vector<std::pair<const char *, const char *>> bad = {
        {"unknown component ref", "<Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"nope\"/></Feature>"}, {"unknown group ref", "<Feature Id=\"F\" Level=\"1\"><ComponentGroupRef Id=\"nope\"/></Feature>"},
        {"unknown directory ref", "<DirectoryRef Id=\"nope\"><Component Id=\"x\" Guid=\"\"><CreateFolder/></Component></DirectoryRef>"},
        {"second root", "<Directory Id=\"OTHER\" Name=\"o\"/>"}, {"same directory twice", "<DirectoryRef Id=\"TARGETDIR\"><Directory Id=\"D1\" Name=\"again\"/></DirectoryRef>"},
        {"same component twice", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"c0\" Guid=\"\"><CreateFolder/></Component></DirectoryRef>"},
        {"same feature twice", "<Feature Id=\"F\" Level=\"1\"/>"}, {"same media twice", "<Media Id=\"1\" Cabinet=\"b.cab\" EmbedCab=\"yes\"/>"}, {"same cabinet twice", "<Media Id=\"2\" Cabinet=\"a.cab\" EmbedCab=\"yes\"/>"},
        {"same file twice", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><File Id=\"f0\" Source=\"f0\"/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"missing file", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><File Id=\"x\" Source=\"absent\"/></Component></DirectoryRef>"},
        {"two key paths", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><File Id=\"x\" Source=\"f0\" KeyPath=\"yes\"/><File Id=\"y\" Source=\"f0\" KeyPath=\"yes\"/></Component></DirectoryRef>"},
        {"unknown icon", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><Shortcut Id=\"s\" Directory=\"TARGETDIR\" Name=\"n\" Icon=\"nope\" Target=\"[x]\"/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"shortcut in no feature", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><Shortcut Id=\"s\" Directory=\"TARGETDIR\" Name=\"n\"/></Component></DirectoryRef>"},
        {"unknown binary", "<CustomAction Id=\"ca\" BinaryKey=\"nope\" DllEntry=\"e\"/>"}, {"unknown action file", "<CustomAction Id=\"ca\" FileKey=\"nope\" ExeCommand=\"e\"/>"}, {"action without anything", "<CustomAction Id=\"ca\"/>"},
        {"unknown group directory", "<Feature Id=\"G\"><ComponentGroupRef Id=\"gx\"/></Feature>|<Fragment><ComponentGroup Id=\"gx\" Directory=\"nope\"><Component Id=\"x\" Guid=\"\"><CreateFolder/></Component></ComponentGroup></Fragment>"},
        {"group without directory", "<Feature Id=\"G\"><ComponentGroupRef Id=\"gx\"/></Feature>|<Fragment><ComponentGroup Id=\"gx\"><Component Id=\"x\" Guid=\"\"><CreateFolder/></Component></ComponentGroup></Fragment>"},
        {"group in itself", "<Feature Id=\"G\"><ComponentGroupRef Id=\"gx\"/></Feature>|<Fragment><ComponentGroup Id=\"gx\" Directory=\"TARGETDIR\"><ComponentGroupRef Id=\"gx\"/></ComponentGroup></Fragment>"},
        {"groups in a circle", "<Feature Id=\"G\"><ComponentGroupRef Id=\"gx\"/></Feature>|<Fragment><ComponentGroup Id=\"gx\" Directory=\"TARGETDIR\"><ComponentGroupRef Id=\"gy\"/></ComponentGroup><ComponentGroup Id=\"gy\" Directory=\"TARGETDIR\"><ComponentGroupRef Id=\"gx\"/></ComponentGroup></Fragment>"},
        {"unknown group in group", "<Feature Id=\"G\"><ComponentGroupRef Id=\"gx\"/></Feature>|<Fragment><ComponentGroup Id=\"gx\" Directory=\"TARGETDIR\"><ComponentRef Id=\"nope\"/></ComponentGroup></Fragment>"},
        {"unknown element", "<Feature Id=\"G\"><Strange/></Feature>"}, {"companion of nothing", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><File Id=\"x\" Source=\"f0\"/><File Id=\"y\" Source=\"f0\" CompanionFile=\"nope\"/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"companion as key path", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><File Id=\"y\" Source=\"f0\" CompanionFile=\"f0\"/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"same property twice", "<Property Id=\"A\" Value=\"1\"/><Property Id=\"A\" Value=\"2\"/>"}, {"configurable directory unknown", "<Feature Id=\"G\" ConfigurableDirectory=\"nope\"/>"},
        {"ini action unknown", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><IniFile Id=\"i\" Name=\"a.ini\" Section=\"s\" Key=\"k\" Value=\"v\" Action=\"nope\" Directory=\"TARGETDIR\"/></Component></DirectoryRef>"},
        {"code from a shortcut", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"*\"><CreateFolder/></Component></DirectoryRef>"},
        {"same code twice", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"11111111-1111-1111-1111-11111111110a\"><CreateFolder/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"same shortcut twice", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><Shortcut Id=\"s\" Directory=\"TARGETDIR\" Name=\"n\" Target=\"[x]\"/><Shortcut Id=\"s\" Directory=\"TARGETDIR\" Name=\"n\" Target=\"[x]\"/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"two create folders", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><CreateFolder/><CreateFolder/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"file on no disk", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><File Id=\"x\" Source=\"f0\" DiskId=\"7\"/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"component in no feature", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><File Id=\"x\" Source=\"f0\"/><RegistryValue Id=\"r\" Root=\"HKLM\" Key=\"k\" Type=\"string\" Value=\"v\"/></Component></DirectoryRef>"},
        {"scope unknown", "<Package InstallScope=\"nope\"/>"}, {"search root unknown", "<Property Id=\"S\"><RegistrySearch Id=\"rs\" Root=\"NOPE\" Key=\"k\" Name=\"n\" Type=\"raw\"/></Property>"},
        {"search without type", "<Property Id=\"S\"><RegistrySearch Id=\"rs\" Root=\"HKLM\" Key=\"k\" Name=\"n\"/></Property>"}, {"registry without type", "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"x\" Guid=\"\"><RegistryValue Id=\"r\" Root=\"HKLM\" Key=\"k\" Value=\"v\"/></Component></DirectoryRef><Feature Id=\"G\"><ComponentRef Id=\"x\"/></Feature>"},
        {"media without cabinet", "<Media Id=\"2\"/>"}, {"condition without text", "<Condition Message=\"m\"/>"}, {"upgrade of nothing", "<Upgrade Id=\"11111111-1111-1111-1111-1111111111AA\"><UpgradeVersion Property=\"U\"/></Upgrade>"},
        {"same search twice", "<Property Id=\"S\"><RegistrySearch Id=\"rs\" Root=\"HKLM\" Key=\"k\" Name=\"n\" Type=\"raw\"/></Property><Property Id=\"T\"><RegistrySearch Id=\"rs\" Root=\"HKLM\" Key=\"k\" Name=\"n\" Type=\"raw\"/></Property>"},
        {"fragment with a stranger", "|<Fragment><Feature Id=\"G\"/></Fragment>"}, {"directory in itself", "<DirectoryRef Id=\"D1\"><Directory Id=\"D1\" Name=\"x\"/></DirectoryRef>"}, {"directories in a circle", "<DirectoryRef Id=\"DA\"><Directory Id=\"DB\" Name=\"x\"/></DirectoryRef><DirectoryRef Id=\"DB\"><Directory Id=\"DA\" Name=\"x\"/></DirectoryRef>"},
    };
    chk.spaces.push_back({"broken", "every broken source of a list, alone and in pairs", bad.size() * (bad.size() + 1), [=](mc::Ctx &c, uint64_t i) {
        auto split = [](const char *s) { std::string x = s; auto k = x.find('|'); return k == std::string::npos ? std::make_pair(x, std::string()) : std::make_pair(x.substr(0, k), x.substr(k + 1)); };
        auto &one = bad[i % bad.size()];
        uint64_t k = i / bad.size();
        if (k && k - 1 <= i % bad.size()) return;
        auto p = split(one.second);
        std::string what = one.first;
        if (k) { auto q = split(bad[k - 1].second); p.first += q.first; p.second += q.second; what += std::string(" and ") + bad[k - 1].first; }
        std::string src = wix(media1 + "<Directory Id=\"TARGETDIR\" Name=\"SourceDir\"><Directory Id=\"D1\" Name=\"d1\"><Component Id=\"c0\" Guid=\"" + guid(10) + "\"><File Id=\"f0\" Source=\"f0\" KeyPath=\"yes\"/></Component></Directory></Directory><Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c0\"/></Feature>" + p.first, p.second);
        c.step(what);
        Built b = build(c, src, what, {{"f0", data(2)}}, {}, false);
        c.state(what + fmt(" %d", b.ok));
        if (b.ok) cabfiles(c, b, [&] { std::map<std::string, std::string> m; for (auto &r : View{b.s}.rows("File")) m[r["File"].s] = data(2); return m; }(), what);
        else {
            // a failure leaves nothing that looks like a package
            auto f = readfile(c.scratch + "/a/s.msi");
            if (f && !f->empty()) c.fail("package left by a failure", what);
        }
    }});
    chk.bounds = fmt("6 trees x 16 placements x 9 forms x 9 file counts x 4 codes%s; 12 media lists x embeddings x disks of 3 files%s; 6 feature trees x 2^12 references x 2%s; 864 attribute sets; every %d children of a component with key paths; sets of %d kinds of content%s; 1260 option sets; %d broken sources alone and in pairs", thorough ? "" : " (at most four choices off the first)", thorough ? "" : " (at most three choices off the first)", thorough ? "" : " (at most three choices off the first)", thorough ? 4 : 3, (int)parts.size(), thorough ? "" : " up to three and all but one", (int)bad.size());
    return mc::run(chk, argc, argv);
}
