// Paths: every short path in both formats, compared with an independent reading of what the path
// denotes: a drive, whether it starts at the root, and the names from there.
#include "iotest.h"
#include <ply-runtime/filesystem/Path.h>
#include <ply-runtime/string/WString.h>

struct Den {
    char drive = 0;
    bool rooted = false;
    std::vector<std::string> comps; // leading ".." only if not rooted
    bool operator==(const Den& o) const { return drive == o.drive && rooted == o.rooted && comps == o.comps; }
    std::string text() const {
        std::string s = drive ? std::string(1, drive) + ":" : "";
        s += rooted ? "[root]" : "[here]";
        for (auto& c : comps) s += " " + c;
        return s;
    }
};
static bool win;
static PathFormat fmt_() { return PathFormat{win}; }
static bool sep(char c) { return c == '/' || (win && c == '\\'); }
static bool drive(const std::string& p) { return win && p.size() >= 2 && isalpha((u8) p[0]) && p[1] == ':'; }
static std::vector<std::string> raw(const std::string& p) { // components, without separators
    std::vector<std::string> out; std::string cur;
    for (char c : p) { if (sep(c)) { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) out.push_back(cur);
    return out;
}
static void apply(Den& d, const std::string& p0) {
    std::string p = p0;
    if (drive(p)) { d = Den{}; d.drive = p[0]; p = p.substr(2); }
    if (!p.empty() && sep(p[0])) { d.rooted = true; d.comps.clear(); }
    for (auto& c : raw(p)) {
        if (c == ".") continue;
        if (c != "..") d.comps.push_back(c);
        else if (!d.comps.empty() && d.comps.back() != "..") d.comps.pop_back();
        else if (!d.rooted) d.comps.push_back("..");
    }
}
static Den den(const std::string& p) { Den d; apply(d, p); return d; }
static bool trail(const std::string& p) { return p.empty() || sep(p.back()); }
static std::string show(const Den& d, bool trailing) { // the normalized path
    char s = win ? '\\' : '/';
    std::string o;
    if (d.drive) o += std::string(1, d.drive) + ":";
    if (d.rooted) o += s;
    for (size_t i = 0; i < d.comps.size(); i++) { if (i) o += s; o += d.comps[i]; }
    if (o.empty()) o = ".";
    if (trailing && !sep(o.back()) && !(d.drive && !d.rooted && d.comps.empty())) o += s;
    return o;
}
// Exactly what normalizing gives; a path that is nothing but "" may or may not get a separator
static void checkNormal(const std::string& got, const Den& d, bool trailing, bool either, const char* what, const std::string& of) {
    Den g = den(got);
    if (!(g == d)) mc::fail("%s %s gives \"%s\", which denotes %s instead of %s", what, of.c_str(), esc(got).c_str(), g.text().c_str(), d.text().c_str());
    bool ok = got == show(d, trailing) || (either && got == show(d, !trailing));
    MC_CHECK(ok, "%s %s gives \"%s\" instead of \"%s\"", what, of.c_str(), esc(got).c_str(), esc(show(d, trailing)).c_str());
}
static std::string pathText(int maxLen) {
    win = choose(2);
    if (win) {
        std::string d = std::vector<std::string>{"", "C:", "d:"}[choose(3)];
        return d + chooseText({"a", ".", "/", "\\", "b"}, maxLen);
    }
    return chooseText({"a", ".", "/", "\\", ":"}, maxLen);
}
static std::string join_(const std::vector<std::string>& v) {
    std::vector<HeapBytes*> hb; Array<StringView> a;
    for (auto& s : v) { hb.push_back(new HeapBytes{s}); a.append(hb.back()->view()); }
    std::string r = str(fmt_().joinAndNormalize(a));
    for (auto* h : hb) delete h;
    return r;
}
static std::string list(const std::vector<std::string>& v) { std::string o; for (auto& s : v) o += (o.empty() ? "\"" : " + \"") + esc(s) + "\""; return o; }

static void single() {
    std::string p = pathText(pick(6, 8));
    mc::nontrivial(); mc::state(hstr(p, win)); mc::step();
    std::string q = list({p});
    MC_LOG("%s path %s", win ? "Windows" : "POSIX", q.c_str());
    mc::casef("%s %s", win ? "Windows" : "POSIX", q.c_str());
    HeapBytes hb{p};
    StringView v = hb.view();
    PathFormat f = fmt_();
    Den d = den(p);
    // classification
    bool hasDrive = drive(p), startsSep = p.size() > (hasDrive ? 2u : 0u) && sep(p[hasDrive ? 2 : 0]);
    MC_CHECK(f.hasDriveLetter(v) == hasDrive && str(f.getDriveLetter(v)) == p.substr(0, hasDrive ? 2 : 0), "drive letter of %s", q.c_str());
    MC_CHECK(f.isAbsolute(v) == (startsSep && (!win || hasDrive)), "isAbsolute(%s) is %d", q.c_str(), f.isAbsolute(v));
    MC_CHECK(f.isRelative(v) == (!p.empty() && !hasDrive && !startsSep), "isRelative(%s) is %d", q.c_str(), f.isRelative(v));
    MC_CHECK(f.endsWithSep(v) == (!p.empty() && sep(p.back())), "endsWithSep(%s)", q.c_str());
    // normalizing
    std::string n = str(f.normalize(v));
    checkNormal(n, d, trail(p), p.empty(), "normalizing", q);
    std::string nn = str(f.normalize(view(n)));
    MC_CHECK(nn == n, "normalizing %s gives \"%s\", normalizing that gives \"%s\"", q.c_str(), esc(n).c_str(), esc(nn).c_str());
    // split
    auto s = f.split(v);
    std::string dir = str(s.first), base = str(s.second);
    size_t lastSep = std::string::npos;
    for (size_t i = 0; i < p.size(); i++) if (sep(p[i])) lastSep = i;
    if (lastSep == std::string::npos) MC_CHECK(dir.empty() && base == p, "split(%s) is %s", q.c_str(), list({dir, base}).c_str());
    else {
        MC_CHECK(base == p.substr(lastSep + 1), "split(%s) is %s", q.c_str(), list({dir, base}).c_str());
        std::string wd = p.substr(0, lastSep);
        while (!wd.empty() && sep(wd.back())) wd.pop_back();
        if (wd.size() == (hasDrive ? 2u : 0u)) wd = p.substr(0, wd.size() + 1); // the root
        MC_CHECK(dir == wd, "split(%s) is %s", q.c_str(), list({dir, base}).c_str());
        Den r; apply(r, dir); apply(r, base);
        MC_CHECK(r == d, "split(%s) is %s, which denotes %s", q.c_str(), list({dir, base}).c_str(), r.text().c_str());
    }
    // splitFull
    std::vector<std::string> full, want;
    for (StringView c : f.splitFull(v)) full.push_back(str(c));
    std::string rest = p;
    if (hasDrive || startsSep) { size_t k = (hasDrive ? 2 : 0) + startsSep; want.push_back(p.substr(0, k)); rest = p.substr(k); while (!rest.empty() && startsSep && sep(rest[0])) rest = rest.substr(1); }
    for (auto& c : raw(rest)) want.push_back(c);
    if (!rest.empty() && sep(rest.back())) want.push_back("");
    MC_CHECK(full == want, "splitFull(%s) is %s", q.c_str(), list(full).c_str());
    if (!full.empty()) { std::string j = join_(full); MC_CHECK(j == n, "splitFull(%s) joins to \"%s\" instead of \"%s\"", q.c_str(), esc(j).c_str(), esc(n).c_str()); }
    // splitExt
    auto e = f.splitExt(v);
    std::string stem = str(e.first), ext = str(e.second);
    std::string name = lastSep == std::string::npos ? p : p.substr(lastSep + 1);
    size_t lead = 0; while (lead < name.size() && name[lead] == '.') lead++;
    size_t dot = name.rfind('.');
    std::string wext = dot == std::string::npos || dot < lead ? "" : name.substr(dot);
    MC_CHECK(stem + ext == p && ext == wext, "splitExt(%s) is %s", q.c_str(), list({stem, ext}).c_str());
    // from
    for (int src = 0; src < 2; src++) {
        std::string w = p;
        for (char& c : w) if ((win && c == '/') || (!win && src && c == '\\')) c = win ? '\\' : '/';
        std::string got = str(f.from(PathFormat{!!src}, v));
        MC_CHECK(got == w, "%s::from<%s>(%s) is \"%s\"", win ? "Windows" : "Posix", src ? "Windows" : "Posix", q.c_str(), esc(got).c_str());
    }
    MC_CHECK(str(v) == p, "the operations changed their argument to \"%s\"", esc(str(v)).c_str());
}
static void joins() {
    win = choose(2);
    int n = 2 + choose(2);
    std::vector<std::string> v;
    for (int i = 0; i < n; i++) {
        std::vector<std::string> al = win ? std::vector<std::string>{"a", ".", "..", "/", "\\"} : std::vector<std::string>{"a", ".", "..", "/"};
        std::string d = win ? std::vector<std::string>{"", "C:", "d:"}[choose(3)] : "";
        v.push_back(d + chooseText(al, n == 2 ? pick(win ? 3 : 4, win ? 4 : 5) : pick(1 + !win, 2 + !win)));
    }
    mc::nontrivial(); mc::step();
    std::string q = list(v);
    mc::state(hstr(q, win));
    MC_LOG("%s join %s", win ? "Windows" : "POSIX", q.c_str());
    mc::casef("%s %s", win ? "Windows" : "POSIX", q.c_str());
    Den d;
    for (auto& s : v) apply(d, s);
    bool all = true; for (auto& s : v) all = all && s.empty();
    checkNormal(join_(v), d, trail(v.back()), all, "joining", q);
}
static void relative() {
    win = choose(2);
    std::vector<std::string> al = win ? std::vector<std::string>{"a", "b", "..", "."} : std::vector<std::string>{"a", "b", "..", ".", "C:"};
    std::vector<std::string> v;
    for (int i = 0; i < 2; i++) {
        std::string p = win ? std::vector<std::string>{"", "C:", "d:", "C:/", "d:\\", "/"}[choose(6)] : std::vector<std::string>{"", "/"}[choose(2)];
        int n = choose(pick(win ? 3 : 4, win ? 4 : 5));
        for (int k = 0; k < n; k++) { if (k) p += win && choose(2) ? "\\" : "/"; p += al[choose(al.size())]; }
        if (n && choose(2)) p += "/";
        v.push_back(p);
    }
    Den a = den(v[0]), b = den(v[1]);
    if (a.rooted != b.rooted || !a.drive != !b.drive) return; // not comparable: outside the contract
    if (v[0].empty() || v[1].empty()) return;
    bool sameDrive = a.drive == b.drive;
    size_t k = 0;
    while (k < a.comps.size() && k < b.comps.size() && a.comps[k] == b.comps[k]) k++;
    if (sameDrive && k < a.comps.size() && a.comps[k] == "..") return; // nothing can name the way back down
    mc::nontrivial(); mc::step();
    std::string q = list(v);
    mc::state(hstr(q, win));
    MC_LOG("%s makeRelative %s", win ? "Windows" : "POSIX", q.c_str());
    mc::casef("%s %s", win ? "Windows" : "POSIX", q.c_str());
    HeapBytes h0{v[0]}, h1{v[1]};
    std::string r = str(fmt_().makeRelative(h0.view(), h1.view()));
    Den want;
    if (!sameDrive) want = b;
    else { for (size_t i = k; i < a.comps.size(); i++) want.comps.push_back(".."); want.comps.insert(want.comps.end(), b.comps.begin() + k, b.comps.end()); }
    checkNormal(r, want, trail(v[1]), false, "the relative path for", q);
    Den j; apply(j, v[0]); apply(j, r);
    MC_CHECK(j == b, "the relative path from %s is \"%s\", which leads to %s", q.c_str(), esc(r).c_str(), j.text().c_str());
    Den jj = den(join_({v[0], r}));
    MC_CHECK(jj == b, "joining %s's relative path \"%s\" leads to %s", q.c_str(), esc(r).c_str(), jj.text().c_str());
}
static std::string hex16(const std::u16string& s) { std::string o; for (char16_t c : s) { char b[8]; snprintf(b, 8, "%x ", (unsigned) c); o += b; } return o; }
static void win32Arg() {
    std::string d = std::vector<std::string>{"", "C:\\", "C:/", "C:", "/"}[choose(5)];
    std::string p = d + chooseText({"a", "/", "\\", "\xc3\xa9", "\xf0\x9f\x92\xa9", "."}, pick(4, 5));
    bool ext = choose(2);
    win = true;
    mc::nontrivial(); mc::state(hstr(p, ext)); mc::step();
    MC_LOG("win32PathArg(\"%s\", %d)", esc(p).c_str(), ext);
    HeapBytes hb{p};
    WString w = win32PathArg(hb.view(), ext);
    std::u16string want, got((const char16_t*) w.units, w.numUnits);
    if (ext && p.size() >= 3 && p[1] == 58 && sep(p[2])) want = u"\\\\?\\";
    for (size_t i = 0; i < p.size(); i++) {
        if ((u8) p[i] == 0xc3) { want += u'\u00e9'; i++; }
        else if ((u8) p[i] == 0xf0) { want += u"\U0001f4a9"; i += 3; }
        else want += p[i] == '/' ? u'\\' : (char16_t) p[i];
    }
    want += u'\0';
    MC_CHECK(got == want, "\"%s\" is passed to Windows as %s instead of %s", esc(p).c_str(), hex16(got).c_str(), hex16(want).c_str());
}
MC_SCENARIOS = {
    {"single", single, 0, "one path: classify, normalize, split, convert"},
    {"joins", joins, 0, "two or three paths joined"},
    {"relative", relative, 0, "the relative path from one path to another"},
    {"win32Arg", win32Arg, 0, "paths passed to the Windows API"},
    MC_END};
