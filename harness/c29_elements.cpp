// C29: wixl turns every element and attribute into the documented table row.
#include "wixbuild.hpp"
using namespace wixbuild;

namespace {
const std::string MEDIA = "<Media Id=\"1\" Cabinet=\"a.cab\" EmbedCab=\"yes\"/>";
// comp: children of the component, file: of its file, prod: of the product, ui: of a UI fragment
std::string source(const std::string &comp, const std::string &file = "", const std::string &prod = "", const std::string &ui = "", const std::string &feats = "<Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c0\"/></Feature>") {
    return wix(MEDIA + prod + "<Directory Id=\"TARGETDIR\" Name=\"SourceDir\"><Directory Id=\"D1\" Name=\"d1\"><Component Id=\"c0\" Guid=\"" + guid(10) + "\"><File Id=\"f0\" Source=\"f0\" KeyPath=\"yes\">" + file + "</File>" + comp + "</Component></Directory></Directory>" + feats, ui.empty() ? "" : "<Fragment><UI Id=\"u\">" + ui + "</UI></Fragment>");
}
const std::map<std::string, std::string> FILES = {{"f0", "content of f0"}, {"icon", "icon"}, {"bin", "binary"}, {"text", "  from a file  "},
    {"ext/ui/CancelDlg.wxs", "<Wix><Fragment/></Wix>"}, {"ext/ui/Common.wxs", "<Wix><Fragment/></Wix>"}};
const Args UI = {"--ext", "ui", "--extdir", "ext"};   // dialogs need the extension; its library is left out
std::string attr(const char *n, const std::string &v) {
    if (v == "-") return "";
    std::string o = std::string(" ") + n + "=\"";
    for (char ch : v) o += ch == '<' ? "&lt;" : ch == '"' ? "&quot;" : ch == '&' ? "&amp;" : std::string(1, ch);
    return o + "\"";
}
std::string text(const std::string &v) { std::string o; for (char ch : v) o += ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : ch == '&' ? "&amp;" : std::string(1, ch); return o; }
struct Pick { uint64_t i; const std::string &of(const Args &v) { uint64_t k = i % v.size(); i /= v.size(); return v[k]; } int n(int k) { int r = i % k; i /= k; return r; } };
uint64_t times(std::initializer_list<size_t> l) { uint64_t r = 1; for (auto x : l) r *= x; return r; }
std::string none(const std::string &v) { return v.empty() ? "-" : v; }   // no text is null
// a value of every cell in the rows of a table, from what the interface refers to
void uirefs(mc::Ctx &c, const Snap &s, const std::string &what) {
    View v{s};
    auto bad = [&](const std::string &d) { c.fail("reference of the interface does not resolve", d + ", " + what); };
    std::set<std::string> dialogs = v.names("Dialog", "Dialog"), controls, bins = v.names("Binary", "Name"), styles = v.names("TextStyle", "TextStyle");
    std::map<std::string, std::vector<std::map<std::string, Val>>> of;
    for (auto &r : v.rows("Control")) {
        if (!dialogs.count(r["Dialog_"].s)) bad("Control of " + r["Dialog_"].s);
        controls.insert(r["Dialog_"].s + "|" + r["Control"].s);
        of[r["Dialog_"].s].push_back(r);
        std::string t = r["Type"].s, x = r.count("Text") ? r["Text"].s : "";
        if ((t == "Bitmap" || t == "Icon") && !bins.count(x)) bad(t + " " + x);
        if (!x.empty() && x[0] == '{' && (x[1] == '\\' || x[1] == '&')) { auto e = x.find('}'); if (x.compare(0, 5, "{\\rtf") && !styles.count(x.substr(2, e - 2))) bad("text style " + x); }
    }
    for (auto &r : v.rows("Dialog")) {
        std::string d = r["Dialog"].s;
        for (auto k : {"Control_First", "Control_Default", "Control_Cancel"}) if (r.count(k) && !controls.count(d + "|" + r[k].s)) bad(d + "." + k + " " + r[k].s);
        if (!r.count("Control_First")) bad(d + " has no first control");
    }
    // the tab order is one circle
    for (auto &d : of) {
        std::map<std::string, std::string> next;
        for (auto &r : d.second) if (r.count("Control_Next")) {
            if (!controls.count(d.first + "|" + r["Control_Next"].s)) bad(d.first + "." + r["Control"].s + " is followed by " + r["Control_Next"].s);
            next[r["Control"].s] = r["Control_Next"].s;
        }
        if (next.empty()) continue;
        std::string at = next.begin()->first;
        std::set<std::string> seen;
        while (next.count(at) && seen.insert(at).second) at = next[at];
        if (seen.size() != next.size() || at != next.begin()->first) c.fail("tab order is not a circle", d.first + ", " + what);
    }
    for (auto t : {"ControlEvent", "ControlCondition", "EventMapping"}) for (auto &r : v.rows(t)) if (!controls.count(r["Dialog_"].s + "|" + r["Control_"].s)) bad(std::string(t) + " of " + r["Dialog_"].s + " " + r["Control_"].s);
    for (auto &r : v.rows("ControlEvent")) {
        std::string e = r["Event"].s;
        if ((e == "NewDialog" || e == "SpawnDialog" || e == "SpawnWaitDialog") && !dialogs.count(r["Argument"].s)) bad(e + " " + r["Argument"].s);
        if (!r.count("Ordering") || r["Ordering"].i < 0) c.fail("event without order", r["Dialog_"].s + " " + r["Control_"].s + ", " + what);
    }
    std::set<std::string> props;
    for (auto &r : v.rows("Control")) if (r.count("Property")) props.insert(r["Property"].s);
    for (auto t : {"CheckBox", "RadioButton"}) for (auto &r : v.rows(t)) if (!props.count(r["Property"].s)) bad(std::string(t) + " " + r["Property"].s);
}
struct Flag { const char *name; int bit; bool inverse; };
// MSI: Dialog Style Bits
const std::vector<Flag> DFLAGS = {{"Hidden", 1, true}, {"Modeless", 2, true}, {"NoMinimize", 4, true}, {"KeepModeless", 16, false}, {"TrackDiskSpace", 32, false}, {"CustomPalette", 64, false}, {"RightToLeft", 128, false}, {"RightAligned", 256, false}, {"LeftScroll", 512, false}, {"ErrorDialog", 65536, false}};
// MSI: Control Attributes
const std::vector<Flag> CFLAGS = {{"Hidden", 1, true}, {"Disabled", 2, true}, {"Sunken", 4, false}, {"Indirect", 8, false}, {"Transparent", 0x10000, false}, {"NoPrefix", 0x20000, false}, {"ProgressBlocks", 0x10000, false}, {"Fixed", 0x20000, false}, {"Remote", 0x40000, false}, {"Bitmap", 0x40000, false}, {"Icon", 0x80000, false}, {"FixedSize", 0x100000, false}, {"ElevationShield", 0x800000, false}, {"ShowRollbackCost", 0x400000, false}};
} // namespace

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) thorough = true;
    mc::Check chk;
    chk.property = "C29";
    chk.technique = "exhaustive enumeration of the attribute combinations of every element, built by the real wixl; rows read back by a reader of its own and compared with the documented meaning of the attributes";
    chk.rule = "every element gives the row with the documented value in every column and nothing else; what cannot be expressed is refused; non-trivial: a package came out";
    static const Args YN = {"-", "yes", "no"};

    // registry values
    static const Args roots = {"HKLM", "HKCU", "HKCR", "HKU", "HKMU"}, types = {"string", "integer", "binary", "expandable", "multistring"}, names = {"-", "n", "*"}, keyed = {"-", "k\\l"};
    static const std::map<std::string, Args> values = {{"string", {"v", "#v", "##", "%x%", "[f0]", "a b", "x#"}}, {"integer", {"0", "12", "-3"}}, {"binary", {"0aff", "#x0a", "00"}}, {"expandable", {"%x%", "#%y%", "p"}}, {"multistring", {"a[~]b", "[~]a[~]", "[~]a"}}};
    chk.spaces.push_back({"registry", "every root, type, kind of value, name, place and id of a registry value", times({roots.size(), types.size(), 7, names.size(), 3, 2}), [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        std::string root = p.of(roots), type = p.of(types);
        auto &vs = values.at(type);
        size_t vi = p.n(7);
        if (vi >= vs.size()) return;
        std::string v = vs[vi], name = p.of(names);
        int form = p.n(3);      // alone, within a key, within a key with a key of its own
        bool id = p.n(2);
        std::string key = form == 0 ? "top" : form == 1 ? "-" : "sub\\x", a = attr("Key", key) + attr("Name", name) + attr("Type", type) + attr("Value", v) + (id ? " Id=\"r0\"" : "");
        std::string x = form ? "<RegistryKey Root=\"" + root + "\" Key=\"par\"><RegistryValue" + a + "/></RegistryKey>" : "<RegistryValue Root=\"" + root + "\"" + a + "/>";
        c.step(x);
        // beside another under another id
        Built b = build(c, source(x + "<RegistryValue Root=\"HKLM\" Key=\"other\" Type=\"string\" Value=\"w\"/>"), x, FILES, {}, false);
        accepted(c, b, x);
        std::string w = type == "string" && v[0] == '#' ? "#" + v : type == "integer" ? "#" + v : type == "binary" ? (v.compare(0, 2, "#x") ? "#x" + v : v) : type == "expandable" ? (v.compare(0, 2, "#%") ? "#%" + v : v) : v;
        int r = root == "HKMU" ? -1 : root == "HKCR" ? 0 : root == "HKCU" ? 1 : root == "HKLM" ? 2 : 3;
        std::string k = form == 0 ? "top" : form == 1 ? "par" : "par\\sub\\x";
        same(c, b.s, "Registry", {"Root", "Key", "Name", "Value", "Component_"}, {{fmt("%d", r), k, name, w, "c0"}, {"2", "other", "-", "w", "c0"}}, x);
        auto ids = View{b.s}.names("Registry", "Registry");
        if (ids.size() != 2 || (id && !ids.count("r0"))) c.fail("registry ids", x);
        for (auto &q : ids) if (q != "r0" && q.compare(0, 3, "reg")) c.fail("registry ids", x + " " + q);
        c.state(x);
    }});

    // services
    static const Args when = {"-", "install", "uninstall", "both"};
    chk.spaces.push_back({"service-control", "every combination of start, stop, remove, wait and up to three arguments", times({4, 4, 4, 3, 4}), [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        std::string st = p.of(when), sp = p.of(when), rm = p.of(when), wait = p.of(YN), args, want;
        int n = p.n(4);
        for (int k = 0; k < n; k++) { args += fmt("<ServiceArgument> a %d </ServiceArgument>", k); want += fmt("%sa %d", k ? "[~]" : "", k); }
        std::string x = "<ServiceControl Id=\"sc\" Name=\"svc\"" + attr("Start", st) + attr("Stop", sp) + attr("Remove", rm) + attr("Wait", wait) + ">" + args + "</ServiceControl><ServiceControl Id=\"other\" Name=\"o\" Stop=\"install\"/>";
        c.step(x);
        Built b = build(c, source(x), x, FILES, {}, false);
        accepted(c, b, x);
        auto ev = [](const std::string &w, int in, int un) { return (w == "install" || w == "both" ? in : 0) | (w == "uninstall" || w == "both" ? un : 0); };
        Cells have = cells(b.s, "ServiceControl", {"ServiceControl", "Name", "Event", "Arguments", "Wait", "Component_"}), trimmed;
        // whether the text keeps its outer blanks is not documented
        for (auto r : have) { std::string o, &s = r[3]; for (size_t k = 0; k < s.size(); k++) if (!(s[k] == ' ' && (k == 0 || k + 1 == s.size() || s.compare(k + 1, 3, "[~]") == 0 || (k >= 3 && s.compare(k - 3, 3, "[~]") == 0)))) o += s[k]; s = o; trimmed.insert(r); }
        Cells w = {{"sc", "svc", fmt("%d", ev(st, 1, 16) | ev(sp, 2, 32) | ev(rm, 8, 128)), none(want), wait == "-" ? "-" : wait == "yes" ? "1" : "0", "c0"}, {"other", "o", "2", "-", "-", "c0"}};
        if (trimmed != w) c.fail("other rows in ServiceControl", x + ": " + show(trimmed) + " instead of " + show(w));
        c.state(x);
    }});
    static const Args stype = {"ownProcess", "shareProcess"}, sstart = {"auto", "demand", "disabled"}, serr = {"ignore", "normal", "critical"};
    static const std::vector<Args> deps = {{}, {"d1"}, {"+g1"}, {"d1", "+g1", "d2"}};
    chk.spaces.push_back({"service-install", "every combination of the flags, the dependencies and the texts of a service", times({2, 3, 3, 3, 3, 3, 4, 2}), [=](mc::Ctx &c, uint64_t i) {
        if (!thorough && deviations(i, {2, 3, 3, 3, 3, 3, 4, 2}) > 4) return;
        Pick p{i};
        std::string t = p.of(stype), st = p.of(sstart), er = p.of(serr), inter = p.of(YN), vital = p.of(YN), erase = p.of(YN);
        auto &d = deps[p.n(4)];
        bool texts = p.n(2);
        std::string x = "<ServiceInstall Id=\"si\" Name=\"svc\"" + attr("Type", t) + attr("Start", st) + attr("ErrorControl", er) + attr("Interactive", inter) + attr("Vital", vital) + attr("EraseDescription", erase) +
            (texts ? " DisplayName=\"disp\" LoadOrderGroup=\"grp\" Account=\"acc\" Password=\"pw\" Arguments=\"-x\" Description=\"ds\"" : "") + ">", w;
        for (auto &k : d) { x += k[0] == '+' ? "<ServiceDependency Id=\"" + k.substr(1) + "\" Group=\"yes\"/>" : "<ServiceDependency Id=\"" + k + "\"/>"; w += k + "[~]"; }
        if (!w.empty()) w += "[~]";
        x += "</ServiceInstall><ServiceInstall Id=\"other\" Name=\"o\" Type=\"ownProcess\" Start=\"demand\" ErrorControl=\"ignore\"/>";
        c.step(x);
        Built b = build(c, source(x), x, FILES, {}, false);
        accepted(c, b, x);
        int ty = (t == "ownProcess" ? 16 : 32) | (inter == "yes" ? 256 : 0), so = st == "auto" ? 2 : st == "demand" ? 3 : 4, ec = (er == "ignore" ? 0 : er == "normal" ? 1 : 3) | (vital == "yes" ? 0x8000 : 0);
        auto tx = [&](const char *v) { return std::string(texts ? v : "-"); };
        same(c, b.s, "ServiceInstall", {"ServiceInstall", "Name", "DisplayName", "ServiceType", "StartType", "ErrorControl", "LoadOrderGroup", "Dependencies", "StartName", "Password", "Arguments", "Component_", "Description"},
             {{"si", "svc", tx("disp"), fmt("%d", ty), fmt("%d", so), fmt("%d", ec), tx("grp"), none(w), tx("acc"), tx("pw"), tx("-x"), "c0", erase == "yes" ? "[~]" : tx("ds")}, {"other", "o", "-", "16", "3", "0", "-", "-", "-", "-", "-", "c0", "-"}}, x);
        c.state(x);
    }});

    // custom actions
    struct Kind { const char *xml; int type; const char *source, *target; };
    static const std::vector<Kind> kinds = {{" BinaryKey=\"bin\" DllEntry=\"e\"", 1, "bin", "e"}, {" BinaryKey=\"bin\" JScriptCall=\"j\"", 5, "bin", "j"}, {" FileKey=\"f0\" ExeCommand=\"run\"", 18, "f0", "run"}, {" Property=\"P\" ExeCommand=\"run\"", 50, "P", "run"}, {" Property=\"P\" Value=\"v w\"", 51, "P", "v w"}};
    static const Args exec = {"-", "immediate", "firstSequence", "oncePerProcess", "clientRepeat", "deferred", "rollback", "commit"}, ret = {"-", "check", "ignore", "asyncWait", "asyncNoWait"};
    chk.spaces.push_back({"actions", "every kind of custom action, execution, return, impersonation and hiding", times({kinds.size(), exec.size(), ret.size(), 3, 3}), [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        auto &k = kinds[p.n(kinds.size())];
        std::string e = p.of(exec), r = p.of(ret), im = p.of(YN), hide = p.of(YN);
        std::string x = std::string("<CustomAction Id=\"ca\"") + k.xml + attr("Execute", e) + attr("Return", r) + attr("Impersonate", im) + attr("HideTarget", hide) + "/>";
        c.step(x);
        Built b = build(c, source("", "", "<Binary Id=\"bin\" SourceFile=\"bin\"/>" + x + "<CustomAction Id=\"other\" Property=\"Q\" Value=\"w\"/>"), x, FILES, {}, false);
        accepted(c, b, x);
        int t = k.type;
        t |= e == "firstSequence" ? 0x100 : e == "oncePerProcess" ? 0x200 : e == "clientRepeat" ? 0x300 : e == "deferred" ? 0x400 : e == "rollback" ? 0x500 : e == "commit" ? 0x600 : 0;
        t |= r == "ignore" ? 0x40 : r == "asyncWait" ? 0x80 : r == "asyncNoWait" ? 0xc0 : 0;
        if (t & 0x400 && im != "yes") t |= 0x800;
        if (hide == "yes") t |= 0x2000;
        same(c, b.s, "CustomAction", {"Action", "Type", "Source", "Target", "ExtendedType"}, {{"ca", fmt("%d", t), k.source, k.target, "-"}, {"other", "51", "Q", "w", "-"}}, x);
        if (b.s.streams["Binary.bin"] != FILES.at("bin")) c.fail("stream content", x);
        c.state(x);
    }});

    // ini files, folders, shortcuts, file types, searches, upgrades, properties
    static const Args acts = {"addLine", "createLine", "removeLine", "addTag", "removeTag"}, idir = {"TARGETDIR", "D1", "-"}, ival = {"v", "-", "a,b"};
    chk.spaces.push_back({"ini", "every action, directory and value of an ini file", times({5, 3, 3}), [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        std::string a = p.of(acts), d = p.of(idir), v = p.of(ival), x = "<IniFile Id=\"i\" Name=\"a.ini\" Section=\"se\" Key=\"ke\"" + attr("Action", a) + attr("Directory", d) + attr("Value", v) + "/>";
        c.step(x);
        Built b = build(c, source(x), x, FILES, {}, false);
        bool rm = a.compare(0, 6, "remove") == 0;
        bool needs = a != "removeLine";
        if (!b.ok) { if (!needs || v != "-") c.fail("refused", x + b.err); return; }   // what is added, and a tag to remove, needs a value
        if (needs && v == "-") c.fail("line without a value", x);
        int n = a == "addLine" ? 0 : a == "createLine" ? 1 : a == "removeLine" ? 2 : a == "addTag" ? 3 : 4;
        Cells none, row = {{"i", "a.ini", d, "se", "ke", v, fmt("%d", n), "c0"}};
        same(c, b.s, "IniFile", {"IniFile", "FileName", "DirProperty", "Section", "Key", "Value", "Action", "Component_"}, rm ? none : row, x);
        same(c, b.s, "RemoveIniFile", {"RemoveIniFile", "FileName", "DirProperty", "Section", "Key", "Value", "Action", "Component_"}, rm ? row : none, x);
        c.state(x);
    }});
    static const Args cdir = {"-", "D1", "TARGETDIR"};
    chk.spaces.push_back({"folders", "creating and removing folders", times({3, 3, 4}), [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        std::string one = p.of(cdir), two = p.of(cdir), on = p.of(when);
        bool has2 = two != "-" && (one == "-" ? "D1" : one) != two;
        std::string x = "<CreateFolder" + attr("Directory", one) + "/>" + (has2 ? "<CreateFolder" + attr("Directory", two) + "/>" : "") + (on == "-" ? "" : "<RemoveFolder Id=\"rf\"" + attr("On", on) + "/>");
        c.step(x);
        Built b = build(c, source(x), x, FILES, {}, false);
        accepted(c, b, x);
        Cells w = {{one == "-" ? "D1" : one, "c0"}}, r;
        if (has2) w.insert({two, "c0"});
        same(c, b.s, "CreateFolder", {"Directory_", "Component_"}, w, x);
        if (on != "-") r.insert({"rf", "c0", "-", "D1", on == "install" ? "1" : on == "uninstall" ? "2" : "3"});
        same(c, b.s, "RemoveFile", {"FileKey", "Component_", "FileName", "DirProperty", "InstallMode"}, r, x);
        c.state(x);
    }});
    chk.spaces.push_back({"shortcuts", "every set of attributes of a shortcut, in a file or a component, of one or two features", 2 * 2 * 128, [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        bool infile = p.n(2), two = p.n(2);
        int m = p.n(128);
        auto v = [&](int k, const char *s) { return std::string(m >> k & 1 ? s : "-"); };
        std::string dir = v(0, "TARGETDIR"), tgt = v(1, "[#f0]"), ic = v(2, "ic"), idx = ic == "-" ? "-" : v(3, "2"), wd = v(4, "D1"), arg = v(5, "-a \"b\""), desc = v(6, "a <d>");
        std::string x = "<Shortcut Id=\"s\" Name=\"S|Short cut\"" + attr("Directory", dir) + attr("Target", tgt) + attr("Icon", ic) + attr("IconIndex", idx) + attr("WorkingDirectory", wd) + attr("Arguments", arg) + attr("Description", desc) + "/>", what = x + (infile ? " in the file" : " in the component") + (two ? ", two features" : "");
        c.step(what);
        Built b = build(c, source(infile ? "" : x, infile ? x : "", ic == "-" ? "" : "<Icon Id=\"ic\" SourceFile=\"icon\"/>", "", two ? "<Feature Id=\"A\" Level=\"1\"/><Feature Id=\"B\" Level=\"1\"><ComponentRef Id=\"c0\"/></Feature><Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c0\"/></Feature>" : "<Feature Id=\"F\" Level=\"1\"><ComponentRef Id=\"c0\"/></Feature>"), what, FILES, {}, false);
        accepted(c, b, what);
        same(c, b.s, "Shortcut", {"Shortcut", "Directory_", "Name", "Component_", "Target", "Arguments", "Description", "Hotkey", "Icon_", "IconIndex", "ShowCmd", "WkDir"}, {{"s", dir == "-" ? "D1" : dir, "S|Short cut", "c0", tgt == "-" ? (two ? "B" : "F") : tgt, arg, desc, "-", ic, idx, "-", wd}}, what);
        if (ic != "-" && b.s.streams["Icon.ic"] != FILES.at("icon")) c.fail("stream content", what);
        c.state(what);
    }});
    chk.spaces.push_back({"file-types", "every set of the elements and texts of a file type", 64, [=](mc::Ctx &c, uint64_t m) {
        bool ext = m & 1, verb = ext && m >> 1 & 1, mime = ext && m >> 2 & 1, ct = ext && m >> 3 & 1, desc = m >> 4 & 1, cmd = verb && m >> 5 & 1;
        std::string x = "<ProgId Id=\"App.Doc\"" + std::string(desc ? " Description=\"doc\"" : "") + ">" + (ext ? "<Extension Id=\"xyz\"" + std::string(ct ? " ContentType=\"app/xyz\"" : "") + ">" + (verb ? "<Verb Id=\"open\" TargetFile=\"f0\" Argument=\"%1 -x\"" + std::string(cmd ? " Command=\"Do it\"" : "") + "/>" : "") + (mime ? "<MIME ContentType=\"app/m\"/>" : "") + "</Extension>" : "") + "</ProgId>";
        c.step(x);
        Built b = build(c, source(x), x, FILES, {}, false);
        accepted(c, b, x);
        Cells w = {{"0", "App.Doc", "-", desc ? "doc" : "-", "c0"}}, have = cells(b.s, "Registry", {"Root", "Key", "Name", "Value", "Component_"});
        if (ext) w.insert({"0", ".xyz", "-", "App.Doc", "c0"});
        if (ct) w.insert({"0", ".xyz", "Content Type", "app/xyz", "c0"});
        else have.erase({"0", ".xyz", "Content Type", "-", "c0"});   // a name without a value: harmless
        if (verb) { w.insert({"0", "App.Doc\\shell\\open", "-", cmd ? "Do it" : "Open", "c0"}); w.insert({"0", "App.Doc\\shell\\open\\command", "-", "\"[#f0]\" %1 -x", "c0"}); }
        if (mime) w.insert({"0", "MIME\\Database\\Content Type\\app/m", "Extension", ".xyz", "c0"});
        if (have != w) c.fail("other rows in Registry", x + ": " + show(have) + " instead of " + show(w));
        c.state(x);
    }});
    static const Args sroot = {"HKLM", "HKCU", "HKCR", "HKU", "hklm"}, stypes = {"raw", "file", "directory", "Raw"}, arch = {"x86", "x64", "ia64"}, sname = {"-", "n"}, sval = {"-", "dflt"};
    chk.spaces.push_back({"search", "every registry search, with its property's value and security", times({5, 4, 2, 3, 3, 2, 3}), [=](mc::Ctx &c, uint64_t i) {
        if (!thorough && deviations(i, {5, 4, 2, 3, 3, 2, 3}) > 4) return;
        Pick p{i};
        std::string r = p.of(sroot), t = p.of(stypes), n = p.of(sname), w = p.of(YN), a = p.of(arch), v = p.of(sval), sec = p.of(YN);
        std::string x = "<Property Id=\"PROP\"" + attr("Value", v) + attr("Secure", sec) + "><RegistrySearch Id=\"rs\" Key=\"k\\l\"" + attr("Root", r) + attr("Type", t) + attr("Name", n) + attr("Win64", w) + "/></Property>", what = x + " -a " + a;
        c.step(what);
        Built b = build(c, source("", "", x), what, FILES, {"-a", a}, false);
        accepted(c, b, what);
        bool wide = w == "-" ? a != "x86" : w == "yes";
        int root = r == "HKCR" ? 0 : r == "HKCU" ? 1 : r == "HKU" ? 3 : 2, type = t == "directory" ? 0 : t == "file" ? 1 : 2;
        same(c, b.s, "AppSearch", {"Property", "Signature_"}, {{"PROP", "rs"}}, what);
        same(c, b.s, "RegLocator", {"Signature_", "Root", "Key", "Name", "Type"}, {{"rs", fmt("%d", root), "k\\l", n, fmt("%d", type | (wide ? 16 : 0))}}, what);
        std::map<std::string, std::string> props;
        for (auto &q : View{b.s}.rows("Property")) props[q["Property"].s] = q["Value"].s;
        if ((props.count("PROP") ? props["PROP"] : "-") != v) c.fail("property value", what);
        if ((props.count("SecureCustomProperties") ? props["SecureCustomProperties"] : "-") != (sec == "yes" ? "PROP" : "-")) c.fail("secure property", what + ": " + props["SecureCustomProperties"]);
        c.state(what);
    }});
    chk.spaces.push_back({"upgrade", "every combination of the flags and bounds of an upgrade", times({3, 3, 3, 3, 4}), [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        std::string mig = p.of(YN), det = p.of(YN), imin = p.of(YN), imax = p.of(YN);
        int bounds = p.n(4);
        std::string mn = bounds & 1 ? "1.2.3" : "-", mx = bounds & 2 ? "4.5" : "-";
        std::string x = "<Upgrade Id=\"" + guid(0xaa) + "\"><UpgradeVersion Property=\"UP\"" + attr("Minimum", mn) + attr("Maximum", mx) + attr("MigrateFeatures", mig) + attr("OnlyDetect", det) + attr("IncludeMinimum", imin) + attr("IncludeMaximum", imax) + "/></Upgrade>";
        c.step(x);
        Built b = build(c, source("", "", x), x, FILES, {}, false);
        if (!b.ok) { if (bounds) c.fail("refused", x + b.err); return; }
        int a = (mig == "yes" ? 1 : 0) | (det == "yes" ? 2 : 0) | (imin != "no" ? 256 : 0) | (imax == "yes" ? 512 : 0);
        same(c, b.s, "Upgrade", {"UpgradeCode", "VersionMin", "VersionMax", "Language", "Attributes", "Remove", "ActionProperty"}, {{"{" + guid(0xaa) + "}", mn, mx, "-", fmt("%d", a), "-", "UP"}}, x);
        c.state(x);
    }});
    chk.spaces.push_back({"secure", "every set of secure properties and upgrades", 64, [=](mc::Ctx &c, uint64_t m) {
        std::string x;
        std::set<std::string> want, have;
        for (int k = 0; k < 4; k++) if (m >> k & 1) { bool s = !(k & 1), v = k & 2; x += fmt("<Property Id=\"P%d\"", k) + (v ? " Value=\"v\"" : "") + (s ? " Secure=\"yes\"" : " Secure=\"no\"") + "/>"; if (s) want.insert(fmt("P%d", k)); }
        if (m >> 4 & 1) { x += "<Upgrade Id=\"" + guid(0xaa) + "\"><UpgradeVersion Minimum=\"1\" Property=\"UP\"/></Upgrade>"; want.insert("UP"); }
        if (m >> 5 & 1) { x += "<MajorUpgrade/>"; want.insert("WIX_DOWNGRADE_DETECTED"); want.insert("WIX_UPGRADE_DETECTED"); }
        c.step(x);
        Built b = build(c, source("", "", x), x, FILES, {}, false);
        accepted(c, b, x);
        for (auto &q : View{b.s}.rows("Property")) if (q["Property"].s == "SecureCustomProperties") { std::string s = q["Value"].s + ";", t; for (char ch : s) if (ch == ';') { if (!have.insert(t).second) c.fail("secure property", x + ": twice " + t); t.clear(); } else t += ch; }
        if (have != want) c.fail("secure property", x);
        c.state(x);
    }});

    // the user interface
    static const Args level = {"-", "0", "17", "255"};
    chk.spaces.push_back({"text-styles", "every colour and style of a text style", 64 * 16, [=](mc::Ctx &c, uint64_t i) {
        if (i % 16) return;    // sixteen styles in each package
        std::string x;
        Cells w;
        Pick p{i / 16};
        std::string r = p.of(level), g = p.of(level), bl = p.of(level);
        for (int m = 0; m < 16; m++) {
            x += fmt("<TextStyle Id=\"T%d\" FaceName=\"face %d\" Size=\"%d\"", m, m, m + 5) + attr("Red", r) + attr("Green", g) + attr("Blue", bl) + (m & 1 ? " Bold=\"yes\"" : "") + (m & 2 ? " Italic=\"yes\"" : m & 4 ? " Italic=\"no\"" : "") + (m & 4 ? " Underline=\"yes\"" : "") + (m & 8 ? " Strike=\"yes\"" : "") + "/>";
            bool col = r != "-" || g != "-" || bl != "-";
            w.insert({fmt("T%d", m), fmt("face %d", m), fmt("%d", m + 5), col ? fmt("%d", atoi(r.c_str() + (r == "-")) + 256 * atoi(g.c_str() + (g == "-")) + 65536 * atoi(bl.c_str() + (bl == "-"))) : "-", m ? fmt("%d", m) : "-"});
        }
        c.step(x);
        Built b = build(c, source("", "", "", x), x, FILES, UI, false);
        accepted(c, b, x);
        same(c, b.s, "TextStyle", {"TextStyle", "FaceName", "Size", "Color", "StyleBits"}, w, x);
        c.state(x);
    }});
    // without the extension there are no tables for an interface, and a dialog has a control
    static const Args needs = {"<UIText Id=\"u\" Value=\"v\"/>", "<TextStyle Id=\"T\" FaceName=\"f\" Size=\"8\"/>", "<Dialog Id=\"D\" Width=\"1\" Height=\"1\"><Control Id=\"b\" Type=\"PushButton\"/></Dialog>",
        "<Dialog Id=\"D\" Width=\"1\" Height=\"1\"><Control Id=\"b\" Type=\"RadioButtonGroup\" Property=\"P\"><RadioButtonGroup Property=\"P\"><RadioButton Value=\"1\" X=\"1\" Y=\"1\" Width=\"1\" Height=\"1\" Text=\"t\"/></RadioButtonGroup></Control></Dialog>",
        "<Dialog Id=\"D\" Width=\"1\" Height=\"1\"><Control Id=\"b\" Type=\"PushButton\" Property=\"P\"><Publish Event=\"EndDialog\" Value=\"Exit\"/></Control></Dialog>",
        "<Dialog Id=\"D\" Width=\"1\" Height=\"1\"><Control Id=\"b\" Type=\"ProgressBar\" Property=\"P\"><Subscribe Event=\"SetProgress\" Attribute=\"Progress\"/></Control></Dialog>",
        "<Dialog Id=\"D\" Width=\"1\" Height=\"1\"><Control Id=\"b\" Type=\"Text\" Property=\"P\"><Text>t</Text></Control></Dialog>",
        "<Publish Dialog=\"WelcomeDlg\" Control=\"c\" Event=\"EndDialog\" Value=\"Exit\"/>",
        "<Dialog Id=\"D\" Width=\"1\" Height=\"1\"/>"};
    chk.spaces.push_back({"extension", "every element of an interface, with and without the extension", needs.size() * 2, [=](mc::Ctx &c, uint64_t i) {
        bool ext = i % 2, fine = ext && i / 2 < 7;   // neither a dialog that is nowhere nor one without controls
        std::string what = needs[i / 2] + (ext ? "" : " without the extension");
        c.step(what);
        Built b = build(c, source("", "", "", needs[i / 2]), what, FILES, ext ? UI : Args{}, false);
        if (fine) accepted(c, b, what);
        else if (b.ok) c.fail("built what it cannot express", what);
        c.state(what);
    }});
    chk.spaces.push_back({"dialogs", "every combination of the flags of a dialog, thirty-two in a package", 1 << DFLAGS.size(), [=](mc::Ctx &c, uint64_t i) {
        if (i % 32) return;
        std::string x;
        Cells w;
        for (int k = 0; k < 32; k++) {
            int m = i + k, a = 0;
            x += fmt("<Dialog Id=\"D%d\" Width=\"%d\" Height=\"%d\"", m, 100 + m, 50 + m) + (m % 3 ? " Title=\"t\"" : "");
            for (size_t f = 0; f < DFLAGS.size(); f++) { bool on = m >> f & 1; if (on) x += attr(DFLAGS[f].name, "yes"); else if ((m + f) % 2) x += attr(DFLAGS[f].name, "no"); if (on != DFLAGS[f].inverse) a |= DFLAGS[f].bit; }
            x += "><Control Id=\"b\" Type=\"PushButton\" X=\"1\" Y=\"2\" Width=\"3\" Height=\"4\"/></Dialog>";
            w.insert({fmt("D%d", m), "50", "50", fmt("%d", 100 + m), fmt("%d", 50 + m), fmt("%d", a), m % 3 ? "t" : "-", "b", "-", "-"});
        }
        c.step(x);
        Built b = build(c, source("", "", "", x), x, FILES, UI, false);
        accepted(c, b, x);
        same(c, b.s, "Dialog", {"Dialog", "HCentering", "VCentering", "Width", "Height", "Attributes", "Title", "Control_First", "Control_Default", "Control_Cancel"}, w, fmt("dialogs from %d", (int)i));
        c.state(x);
    }});
    // controls: sets of flags of at most two and all but one, with every icon size and type
    static const Args ctypes = {"PushButton", "Text", "Bitmap", "Icon", "Line", "CheckBox", "Edit", "RadioButtonGroup", "ProgressBar", "VolumeCostList", "ScrollableText"}, icons = {"-", "16", "32", "48"};
    static const std::vector<int> sets = [] { std::vector<int> v; int n = CFLAGS.size(); for (int m = 0; m < 1 << n; m++) { int k = __builtin_popcount(m); if (k <= 2 || k >= n - 1) v.push_back(m); } return v; }();
    chk.spaces.push_back({"controls", "every type of control with every set of at most two or all but one flags and every icon size, all sets in one dialog", times({ctypes.size(), icons.size(), 2}), [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        std::string t = p.of(ctypes), size = p.of(icons), x;
        bool no = p.n(2);
        Cells w;
        std::string prop = t == "CheckBox" || t == "Edit" || t == "RadioButtonGroup" ? "PR" : "-";
        for (int m : sets) {
            int a = 0;
            std::string id = fmt("C%d", m), pr = prop == "-" ? "-" : prop + fmt("%d", m);
            x += "<Control" + attr("Id", id) + attr("Type", t) + fmt(" X=\"%d\" Y=\"%d\" Width=\"%d\" Height=\"%d\"", m % 100, m % 50, m % 300, m % 70) + attr("Property", pr) + (m % 5 ? attr("Text", "t&x") : t == "Bitmap" || t == "Icon" ? attr("Text", "bin") : "") + attr("IconSize", size);
            for (size_t f = 0; f < CFLAGS.size(); f++) {
                bool on = m >> f & 1;
                if (on) x += attr(CFLAGS[f].name, "yes"); else if (no) x += attr(CFLAGS[f].name, "no");
                if (on == CFLAGS[f].inverse) continue;
                if (!strcmp(CFLAGS[f].name, "Disabled") && (t == "Line" || t == "Bitmap" || t == "Icon")) continue;   // static
                a |= CFLAGS[f].bit;
            }
            a |= size == "16" ? 0x200000 : size == "32" ? 0x400000 : size == "48" ? 0x600000 : 0;
            x += "/>";
            w.insert({"DL", id, t, fmt("%d", m % 100), fmt("%d", m % 50), fmt("%d", m % 300), fmt("%d", m % 70), a ? fmt("%d", a) : "-", pr, m % 5 ? "t&x" : t == "Bitmap" || t == "Icon" ? "bin" : "-", "-"});
        }
        std::string what = t + " icon size " + size;
        c.step(what);
        Built b = build(c, source("", "", "", "<Dialog Id=\"DL\" Width=\"370\" Height=\"270\">" + x + "</Dialog>"), what, FILES, UI, false);
        accepted(c, b, what);
        auto have = cells(b.s, "Control", {"Dialog_", "Control", "Type", "X", "Y", "Width", "Height", "Attributes", "Property", "Text", "Help"});
        if (have != w) { for (auto &r : have) if (!w.count(r)) c.fail("other rows in Control", what + ": " + join(r)); c.fail("other rows in Control", what + ": missing"); }
        if (t == "CheckBox") { Cells cb; for (int m : sets) cb.insert({fmt("PR%d", m), "-"}); same(c, b.s, "CheckBox", {"Property", "Value"}, cb, what); }
        else same(c, b.s, "CheckBox", {"Property", "Value"}, {}, what);
        c.state(what);
    }});
    // tab order, default and cancel buttons
    static const Args tabs = {" Type=\"PushButton\"", " Type=\"Text\"", " Type=\"PushButton\" TabSkip=\"yes\"", " Type=\"Edit\" TabSkip=\"no\" Property=\"P\"", " Type=\"Line\"", " Type=\"CheckBox\" Property=\"Q\" CheckBoxValue=\"7\""};
    chk.spaces.push_back({"tab-order", "every dialog of up to four controls of six kinds, with a default and a cancel button anywhere", 6 * 6 * 6 * 6 * 5 * 5 * 4, [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        int n = p.n(4) + 1, def = p.n(5), can = p.n(5), k[4];
        for (int j = 0; j < 4; j++) { k[j] = p.n(6); if (j >= n && k[j]) return; }
        if (def > n || can > n) return;
        if (!thorough && n > 3) return;
        std::string x = "<Dialog Id=\"DL\" Width=\"370\" Height=\"270\">";
        std::vector<int> tab;
        bool box = false;
        for (int j = 0; j < n; j++) {
            if (k[j] == 5 && box) return;   // one check box for a property
            box |= k[j] == 5;
            x += fmt("<Control Id=\"C%d\"", j) + tabs[k[j]] + (def == j + 1 ? " Default=\"yes\"" : j % 2 ? " Default=\"no\"" : "") + (can == j + 1 ? " Cancel=\"yes\"" : "") + "/>";
            if (k[j] == 0 || k[j] == 3 || k[j] == 5) tab.push_back(j);
        }
        x += "</Dialog>";
        c.step(x);
        Built b = build(c, source("", "", "", x), x, FILES, UI, false);
        accepted(c, b, x);
        Cells w;
        for (int j = 0; j < n; j++) {
            auto at = std::find(tab.begin(), tab.end(), j);
            w.insert({"DL", fmt("C%d", j), at == tab.end() || tab.size() < 2 ? "-" : fmt("C%d", at + 1 == tab.end() ? tab[0] : at[1])});
        }
        same(c, b.s, "Control", {"Dialog_", "Control", "Control_Next"}, w, x);
        same(c, b.s, "Dialog", {"Control_First", "Control_Default", "Control_Cancel"}, {{"C0", def ? fmt("C%d", def - 1) : "-", can ? fmt("C%d", can - 1) : "-"}}, x);
        if (box) same(c, b.s, "CheckBox", {"Property", "Value"}, {{"Q", "7"}}, x);
        uirefs(c, b.s, x);
        c.state(x);
    }});
    // events of controls
    struct Pub { const char *xml, *event, *argument; };
    static const std::vector<Pub> pubs = {{" Event=\"EndDialog\" Value=\"Exit\"", "EndDialog", "Exit"}, {" Event=\"NewDialog\" Value=\"D2\"", "NewDialog", "D2"}, {" Property=\"PR\" Value=\"v\"", "[PR]", "v"}, {" Property=\"PR\"", "[PR]", "{}"}};
    static const Args orders = {"-", "1", "5"}, conds = {"-", "a <> 1", "text"};
    static const int PS = 4 * 3 * 3;
    chk.spaces.push_back({"events", "every list of up to three events of two controls, from the control or the interface", PS * PS * PS * 4, [=](mc::Ctx &c, uint64_t i) {
        int form = i % 4; i /= 4;   // all within one control; the last within a second; the last in the interface, of either control
        int e[3] = {(int)(i % PS), (int)(i / PS % PS), (int)(i / PS / PS)};
        if (!thorough && deviations(i, {4, 3, 3, 4, 3, 3, 4, 3, 3}) > 3) return;
        std::string in[3], what = fmt("form %d", form);
        Cells w;
        std::vector<std::array<std::string, 2>> seq[2];   // unset orders of each control
        std::set<std::vector<std::string>> keys;
        std::vector<std::pair<int, std::vector<std::string>>> rows;
        for (int k = 0; k < 3; k++) {
            Pick p{(uint64_t)e[k]};
            auto &b = pubs[(p.n(4) + k) % 4];
            std::string o = p.of(orders), cd = p.of(conds);
            int ctl = k < 2 ? 0 : form == 0 || form == 2 ? 0 : 1;
            bool top = k == 2 && form >= 2;
            std::string x = std::string("<Publish") + (top ? fmt(" Dialog=\"D1\" Control=\"C%d\"", ctl) : "") + b.xml + attr("Order", o) + (cd == "text" ? ">" + text(" b < 2 ") + "</Publish>" : attr("Condition", cd) + "/>");
            in[top ? 2 : ctl] += x;
            what += " " + x;
            std::string cond = cd == "-" ? "1" : cd == "text" ? "b < 2" : cd;
            if (!keys.insert({fmt("C%d", ctl), b.event, b.argument, cond}).second) return;
            rows.push_back({ctl, {b.event, b.argument, cond, o}});
        }
        std::string x = "<Dialog Id=\"D1\" Width=\"1\" Height=\"1\"><Control Id=\"C0\" Type=\"PushButton\">" + in[0] + "</Control><Control Id=\"C1\" Type=\"PushButton\">" + in[1] + "</Control></Dialog><Dialog Id=\"D2\" Width=\"1\" Height=\"1\"><Control Id=\"b\" Type=\"PushButton\"/></Dialog>" + in[2];
        c.step(what);
        Built b = build(c, source("", "", "", x), what, FILES, UI, false);
        accepted(c, b, what);
        std::map<std::vector<std::string>, int> have;
        for (auto &r : View{b.s}.rows("ControlEvent")) have[{r["Control_"].s, r["Event"].s, r["Argument"].s, r.count("Condition") ? r["Condition"].s : "-"}] = r.count("Ordering") ? r["Ordering"].i : -1;
        if (have.size() != rows.size()) c.fail("other rows in ControlEvent", what + ": " + show(View{b.s}.t("ControlEvent")->rows));
        int last[2] = {0, 0};
        for (auto &r : rows) {
            auto f = have.find({fmt("C%d", r.first), r.second[0], r.second[1], r.second[2]});
            if (f == have.end()) c.fail("other rows in ControlEvent", what + ": " + show(View{b.s}.t("ControlEvent")->rows));
            if (r.second[3] != "-" ? f->second != atoi(r.second[3].c_str()) : f->second <= last[r.first]) c.fail("event order", what + ": " + join(r.second) + fmt(" has %d", f->second));
            last[r.first] = f->second;
        }
        uirefs(c, b.s, what);
        c.state(what);
    }});
    chk.spaces.push_back({"conditions", "every set of conditions of a control, with and without a subscription", 32 * 4, [=](mc::Ctx &c, uint64_t i) {
        int m = i % 32, s = i / 32;
        static const char *acts[] = {"Default", "Disable", "Enable", "Hide", "Show"};
        std::string a, in, x;
        Cells w, em;
        for (int k = 0; k < 5; k++) if (m >> k & 1) { a += attr((std::string(acts[k]) + "Condition").c_str(), fmt("V < %d", k)); w.insert({"D1", "C0", acts[k], fmt("V < %d", k)}); }
        for (int k = 0; k < 2; k++) if (s >> k & 1) { in += fmt("<Subscribe Event=\"E%d\" Attribute=\"A%d\"/>", k, k); em.insert({"D1", "C0", fmt("E%d", k), fmt("A%d", k)}); }
        x = "<Dialog Id=\"D1\" Width=\"1\" Height=\"1\"><Control Id=\"C0\" Type=\"PushButton\"" + a + ">" + in + "</Control><Control Id=\"C1\" Type=\"Text\"/></Dialog>";
        c.step(x);
        Built b = build(c, source("", "", "", x), x, FILES, UI, false);
        accepted(c, b, x);
        same(c, b.s, "ControlCondition", {"Dialog_", "Control_", "Action", "Condition"}, w, x);
        same(c, b.s, "EventMapping", {"Dialog_", "Control_", "Event", "Attribute"}, em, x);
        uirefs(c, b.s, x);
        c.state(x);
    }});
    static const Args rtext = {"-", "t <r>"};
    chk.spaces.push_back({"texts", "radio buttons, texts of controls from every place, texts of the interface and of actions", 4 * 4 * 4 * 2 * 4, [=](mc::Ctx &c, uint64_t i) {
        Pick p{i};
        int n1 = p.n(4), n2 = p.n(4), src = p.n(4), ut = p.n(4);
        bool help = p.n(2);
        std::string x = "<Dialog Id=\"D1\" Width=\"1\" Height=\"1\">";
        Cells w, uw, aw;
        for (int g = 0; g < 2; g++) {
            x += fmt("<Control Id=\"G%d\" Type=\"RadioButtonGroup\" Property=\"R%d\"><RadioButtonGroup Property=\"R%d\">", g, g, g);
            for (int k = 0; k < (g ? n2 : n1); k++) {
                std::string t = k % 2 ? "-" : "t <r>", h = help ? fmt("h%d", k) : "-";
                x += fmt("<RadioButton Value=\"v%d\" X=\"%d\" Y=\"%d\" Width=\"%d\" Height=\"%d\"", k, k + 1, k + 20, k + 300, 4 + g) + attr("Text", t) + attr("Help", h) + "/>";
                w.insert({fmt("R%d", g), fmt("%d", k + 1), fmt("v%d", k), fmt("%d", k + 1), fmt("%d", k + 20), fmt("%d", k + 300), fmt("%d", 4 + g), t, h});
            }
            x += "</RadioButtonGroup></Control>";
        }
        x += std::string("<Control Id=\"T\" Type=\"Text\"") + (src == 1 ? " Text=\"from the attribute\"" : "") + ">" + (src == 2 ? "<Text> from the element </Text>" : src == 3 ? "<Text SourceFile=\"text\"/>" : "") + "</Control></Dialog>";
        for (int k = 0; k < ut; k++) {
            x += fmt("<UIText Id=\"u%d\"", k) + (k ? attr("Value", fmt("v & %d", k)) : "") + "/>" + fmt("<ProgressText Action=\"A%d\"", k) + (k ? " Template=\"[1]\"" : "") + "> doing </ProgressText>";
            uw.insert({fmt("u%d", k), k ? fmt("v & %d", k) : "-"});
            aw.insert({fmt("A%d", k), "doing", k ? "[1]" : "-"});
        }
        c.step(x);
        Built b = build(c, source("", "", "", x), x, FILES, UI, false);
        accepted(c, b, x);
        same(c, b.s, "RadioButton", {"Property", "Order", "Value", "X", "Y", "Width", "Height", "Text", "Help"}, w, x);
        same(c, b.s, "UIText", {"Key", "Text"}, uw, x);
        same(c, b.s, "ActionText", {"Action", "Description", "Template"}, aw, x);
        std::string t = "-";
        for (auto &r : View{b.s}.rows("Control")) if (r["Control"].s == "T" && r.count("Text")) t = r["Text"].s;
        if (t != (src == 0 ? "-" : src == 1 ? "from the attribute" : src == 2 ? "from the element" : FILES.at("text"))) c.fail("text of a control", x + ": " + t);
        uirefs(c, b.s, x);
        c.state(x);
    }});
    // the dialogs that come with wixl
    static const Args lib = {"CancelDlg", "ErrorDlg", "ExitDialog", "FatalError", "FilesInUse", "MaintenanceTypeDlg", "MaintenanceWelcomeDlg", "MsiRMFilesInUse", "OutOfDiskDlg", "OutOfRbDiskDlg", "PrepareDlg", "ProgressDlg", "ResumeDlg", "UserExit", "VerifyReadyDlg", "WaitForCostingDlg", "WelcomeDlg", "WelcomeEulaDlg"};
    chk.spaces.push_back({"library", "the dialogs that come with wixl: all, each, and every pair", 1 + lib.size() + lib.size() * lib.size(), [=](mc::Ctx &c, uint64_t i) {
        const char *repo = getenv("VERIF_REPO");
        std::string ui, what = "all dialogs";
        std::set<std::string> want;
        if (i) {
            size_t a = (i - 1) % lib.size(), b = (i - 1) / lib.size();   // b 0: alone
            if (b && b - 1 <= a) return;
            want.insert(lib[a]);
            if (b) want.insert(lib[b - 1]);
            what.clear();
            for (auto &d : want) { ui += "<DialogRef Id=\"" + d + "\"/>"; what += " " + d; }
        } else ui = "<UIRef Id=\"WixUI_Minimal\"/>";
        c.step(what);
        auto files = FILES;
        files["License.rtf"] = "{\\rtf1 text}";
        // the styles come with the whole
        std::string st = i ? "<TextStyle Id=\"WixUI_Font_Normal\" FaceName=\"Tahoma\" Size=\"8\"/><TextStyle Id=\"WixUI_Font_Bigger\" FaceName=\"Tahoma\" Size=\"12\"/><TextStyle Id=\"WixUI_Font_Title\" FaceName=\"Tahoma\" Size=\"9\"/>" : "";
        Built b = build(c, source("", "", i ? "" : ui, i ? st + ui : ""), what, files, {"--ext", "ui", "--extdir", std::string(repo ? repo : "/repo") + "/data/ext"}, i == 0);
        if (i && !b.ok) return;   // a dialog may ask for others to be in the sequences
        accepted(c, b, what);
        auto have = View{b.s}.names("Dialog", "Dialog");
        for (auto &d : i ? want : std::set<std::string>(lib.begin(), lib.end())) if (!have.count(d)) { if (!i && (d == "OutOfDiskDlg" || d == "OutOfRbDiskDlg" || d == "WaitForCostingDlg")) { } c.fail("dialog missing", d + ", " + what); }
        if (!i) {
            uirefs(c, b.s, what);
            for (auto t : {"InstallUISequence", "AdminUISequence"}) for (auto &r : View{b.s}.rows(t)) { std::string a = r["Action"].s; if ((a.size() > 3 && a.substr(a.size() - 3) == "Dlg") && !have.count(a)) c.fail("dialog missing", a + " in a sequence"); }
        }
        c.state(what);
    }});
    chk.bounds = fmt("3150 registry values, 768 service controls, 3888 service installs%s, 1800 custom actions, 45 ini lines, 36 folders, 512 shortcuts, 64 file types, 2160 searches%s, 324 upgrades, 64 secure properties, 1024 text styles, 1024 dialogs, %d sets of control flags x 11 types x 4 icons, dialogs of up to %d controls of 6 kinds, lists of 3 events of 36 kinds in 4 forms%s, 128 conditions, 512 texts, 18 dialogs of the library in every pair", thorough ? "" : " (at most four choices off the first)", thorough ? "" : " (at most four choices off the first)", (int)sets.size(), thorough ? 4 : 3, thorough ? "" : " (at most three choices off the first)");
    return mc::run(chk, argc, argv);
}
