// Cabinets: a writer of stored ones and a reader of stored and MSZIP ones, by the format alone.
#pragma once
#include "msi.hpp"
#ifdef CAB_READER
#include <zlib.h>
#endif
namespace cab {
inline void p16(std::string &o, uint32_t v) { o += (char)v; o += (char)(v >> 8); }
inline void p32(std::string &o, uint32_t v) { p16(o, v); p16(o, v >> 16); }
struct File { std::string name, data; };
inline uint32_t sum(const std::string &d, uint32_t s) {
    size_t i = 0;
    auto at = [&](size_t k) { return (uint32_t)(unsigned char)d[k]; };
    for (; i + 4 <= d.size(); i += 4) s ^= at(i) | at(i + 1) << 8 | at(i + 2) << 16 | at(i + 3) << 24;
    uint32_t u = 0;
    size_t n = d.size() - i;
    if (n == 3) u |= at(i++) << 16;
    if (n >= 2) u |= at(i++) << 8;
    if (n >= 1) u |= at(i);
    return s ^ u;
}
inline std::string make(const std::vector<File> &files) {
    std::string all, dir, blocks;
    for (auto &f : files) {
        bool utf = false;
        for (unsigned char ch : f.name) utf |= ch >= 0x80;
        p32(dir, f.data.size()); p32(dir, all.size()); p16(dir, 0);
        p16(dir, 0x4a21); p16(dir, 0x6000); p16(dir, 0x20 | (utf ? 0x80 : 0));
        dir += f.name + std::string(1, '\0');
        all += f.data;
    }
    int nb = 0;
    for (size_t o = 0; o < all.size() || nb == 0; o += 32768, nb++) {
        std::string d = all.substr(o, 32768);
        std::string sz;
        p16(sz, d.size()); p16(sz, d.size());
        p32(blocks, sum(sz, sum(d, 0)));
        blocks += sz;
        blocks += d;
        if (all.empty()) { nb++; break; }
    }
    std::string h = "MSCF";
    uint32_t files_at = 36 + 8, data_at = files_at + dir.size();
    p32(h, 0); p32(h, data_at + blocks.size()); p32(h, 0); p32(h, files_at); p32(h, 0);
    h += (char)3; h += (char)1;
    p16(h, 1); p16(h, files.size()); p16(h, 0); p16(h, 7); p16(h, 0);
    p32(h, data_at); p16(h, nb); p16(h, 0);
    return h + dir + blocks;
}
#ifdef CAB_READER
struct Bad { std::string what; };
inline std::vector<File> read(const std::string &b) {
    auto u = [&](uint64_t o, int n) { if (o + n > b.size()) throw Bad{"cabinet is too short"}; uint32_t v = 0; for (int i = n; i--;) v = v << 8 | (unsigned char)b[o + i]; return v; };
    if (b.compare(0, 4, "MSCF")) throw Bad{"no cabinet"};
    if (u(8, 4) != b.size()) throw Bad{"cabinet size"};
    uint32_t at = u(16, 4), nfold = u(26, 2), nfile = u(28, 2), flags = u(30, 2), o = 36, resf = 0, resd = 0;
    if (flags & 4) { uint32_t rh = u(36, 2); resf = u(38, 1); resd = u(39, 1); o = 40 + rh; }
    if (flags & 3) throw Bad{"cabinet continues"};
    std::vector<std::string> folder;
    for (uint32_t i = 0; i < nfold; i++, o += 8 + resf) {
        uint32_t d = u(o, 4), n = u(o + 4, 2), type = u(o + 6, 2) & 15;
        std::string out;
        if (type > 1) throw Bad{"compression"};
        for (uint32_t k = 0; k < n; k++) {
            uint32_t cs = u(d + 4, 2), us = u(d + 6, 2);
            u(d + 8 + resd, cs);
            std::string x = b.substr(d + 8 + resd, cs);
            if (x.size() != cs) throw Bad{"block"};
            d += 8 + resd + cs;
            if (type == 0) { if (cs != us) throw Bad{"stored block"}; out += x; continue; }
            if (x.compare(0, 2, "CK")) throw Bad{"MSZIP block"};
            z_stream z = {};
            inflateInit2(&z, -15);
            size_t w = std::min<size_t>(out.size(), 32768);
            if (w) inflateSetDictionary(&z, (const Bytef *)out.data() + out.size() - w, w);
            std::string y(us, 0);
            z.next_in = (Bytef *)x.data() + 2; z.avail_in = x.size() - 2;
            z.next_out = (Bytef *)&y[0]; z.avail_out = us;
            int r = inflate(&z, Z_FINISH);
            inflateEnd(&z);
            if ((r != Z_STREAM_END && r != Z_OK && r != Z_BUF_ERROR) || z.avail_out) throw Bad{"inflate"};
            out += y;
        }
        folder.push_back(out);
    }
    std::vector<File> v;
    for (uint32_t i = 0; i < nfile; i++) {
        uint32_t size = u(at, 4), off = u(at + 4, 4), f = u(at + 8, 2);
        size_t e = b.find('\0', at + 16);
        if (e == std::string::npos) throw Bad{"name"};
        std::string n = b.substr(at + 16, e - at - 16);
        if (f >= folder.size() || (uint64_t)off + size > folder[f].size()) throw Bad{"file " + n + " lies outside its folder"};
        v.push_back({n, folder[f].substr(off, size)});
        at = e + 1;
    }
    return v;
}
#endif
} // namespace cab
