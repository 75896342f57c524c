// The web handlers that serve files: every request path over the names that matter, on a file system in memory.
#include "memfs.h"
#include <ply-runtime/filesystem/FileSystem.h>
#include <web-common/FetchFromFileSystem.h>
#include <web-common/SourceCode.h>
#include <ply-web-serve-docs/DocServer.h>
#include <ply-runtime/io/OutStream.h>
using memfs::F;

struct Response : web::ResponseIface {
    MemOutStream mout;
    int begun = 0, ended = 0;
    web::ResponseCode code = web::ResponseCode::Unknown;
    std::string header, body;
    OutStream* beginResponseHeader(web::ResponseCode c) override { begun++; code = c; return &mout; }
    std::string take() {
        std::string s = str(mout.moveToString());
        return s;
    }
    void endResponseHeader() override { ended++; header = take(); new (&mout) MemOutStream; }
    void finish() {
        MC_CHECK(begun == 1 && ended == 1, "the handler begins %d responses and ends %d headers", begun, ended);
        body = take();
        MC_CHECK(header.size() >= 4 && header.substr(header.size() - 4) == "\r\n\r\n" && header.find("\r\n\r\n") == header.size() - 4, "the header is \"%s\"", esc(header).c_str());
    }
    std::string field(const std::string& name) {
        size_t pos = 0;
        while (pos < header.size()) {
            size_t e = header.find("\r\n", pos);
            std::string l = header.substr(pos, e - pos);
            size_t c = l.find(": ");
            if (c != std::string::npos && l.substr(0, c) == name) return l.substr(c + 2);
            pos = e + 2;
        }
        return "";
    }
};
static int rootNode, pagesNode;
static void tree() {
    memfs::reset();
    auto dir = [](int p, const char* n) { return memfs::add(p, n, memfs::DIR_); };
    auto file = [](int p, const char* n, const std::string& d) { return memfs::add(p, n, memfs::FILE_, d); };
    for (const char* n : {"secret.png", "secret.html", "a.png", "d"}) file(0, n, "OUTSIDE root " + std::string(n));
    int top = dir(0, "top");
    for (const char* n : {"secret.png", "secret.html", "a.png"}) file(top, n, "OUTSIDE top " + std::string(n));
    int www2 = dir(top, "www2");
    file(www2, "a.png", "OUTSIDE sibling");
    rootNode = dir(top, "www");
    file(rootNode, "a.png", std::string("PNG\0\xff\r\n<&>", 10));
    file(rootNode, "b.min.js", "let b = \"<\";\nend & all\n");
    file(rootNode, "x.css", "");
    file(rootNode, "noext", "no extension");
    file(rootNode, ".png", "dot file");
    file(rootNode, "...png", "dots");
    file(rootNode, "t.txt", "text\r\n\t<b>\"&\n\nlast");
    file(rootNode, "secret.html", "OUTSIDE of pages");
    int d = dir(rootNode, "d");
    file(d, "x.css", "d/x.css");
    file(d, "a.png", "d/a.png");
    dir(rootNode, "e.png");
    int pages = pagesNode = dir(rootNode, "pages");
    file(pages, "index.html", "Home\n<p>home</p>\n");
    file(pages, "a.html", " Title A \r\n<p>a</p>\n<p>b</p>");
    int pd = dir(pages, "d");
    file(pd, "index.html", "D index\n<p>d</p>\n");
    file(pd, "x.html", "D x\nx");
    dir(pages, "empty");
    file(rootNode, "contents.pylon", "[{title: \"A\", linkDestination: \"/docs/a\", children: []}]");
    F.cwd = top;
}
// What a path names under a directory, read component by component
struct Named { bool escapes = false, odd = false; int node = -1; std::string last, plain; };
static Named named(int root, const std::string& path) {
    Named r;
    if (path.find('\0') != std::string::npos) r.odd = true;
    std::vector<std::string> comps; std::string c;
    for (char ch : path + "/") if (ch == '/') { if (!c.empty() && c != ".") comps.push_back(c); c.clear(); } else c += ch;
    std::vector<std::string> st;
    int cur = root; // following the file system; -1 once a component is missing
    std::vector<int> walk{root};
    for (auto& k : comps) {
        if (k == "..") {
            if (st.empty()) { r.escapes = true; return r; }
            if (walk.back() < 0 || F.nodes[walk.back()].kind != memfs::DIR_) r.odd = true; // x/.. where x is not a directory
            st.pop_back(); walk.pop_back();
        } else {
            st.push_back(k);
            cur = walk.back();
            int next = -1;
            if (cur >= 0 && F.nodes[cur].kind == memfs::DIR_ && F.nodes[cur].kids.count(k)) next = F.nodes[cur].kids[k];
            walk.push_back(next);
        }
    }
    r.node = walk.back();
    if (!st.empty()) r.last = st.back();
    for (auto& k : st) r.plain += (r.plain.empty() ? "" : "/") + k;
    // a slash or a dot component at the end asks for a directory
    size_t sl = path.rfind('/');
    std::string tail = sl == std::string::npos ? path : path.substr(sl + 1);
    if (tail.empty() || tail == "." || tail == "..") { if (r.node >= 0 && F.nodes[r.node].kind != memfs::DIR_) r.odd = true; }
    return r;
}
static void checkOpened(int root, const std::string& what) {
    for (int n : F.opened) {
        if (F.nodes[n].kind == memfs::DIR_ && false) continue;
        if (!memfs::under(n, root)) mc::fail("%s opens %s, outside its root", esc(what).c_str(), memfs::pathOf(n).c_str());
    }
    MC_CHECK(F.fds.empty(), "%s leaves a file open", esc(what).c_str());
}
static std::string xml(const std::string& s) {
    std::string o;
    for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else o += c; }
    return o;
}
static std::string unXml(std::string s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '&') { o += s[i]; continue; }
        size_t e = s.find(';', i);
        MC_CHECK(e != std::string::npos, "a bare '&' in the page");
        std::string n = s.substr(i + 1, e - i - 1);
        if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "#39" || n == "apos") o += '\'';
        else mc::fail("the page has the entity \"%s\"", esc(n).c_str());
        i = e;
    }
    return o;
}
static const char* ROOTS[] = {"/top/www", "/top/www/", "www", "./www", "www2/../www"};
static std::string choosePath(const std::vector<std::string>& names, int maxComps) {
    std::string p = choose(2) ? "/" : "";
    int n = choose(maxComps + 1);
    for (int i = 0; i < n; i++) { if (i) p += '/'; p += names[choose((int) names.size())]; }
    if (n && choose(2)) p += '/';
    return p;
}
static const std::vector<std::string>& names() {
    static const std::vector<std::string> v = {"..", ".", "", "a.png", "d", "x.css", "secret.png", "www", "%2e%2e", "..\\", "noext", std::string("a.png\0.css", 10)};
    return v;
}
static void fetchOne(const std::string& uri, const char* rootDir) {
    tree();
    {
        web::FetchFromFileSystem h;
        h.rootDir = rootDir;
        Response r;
        HeapBytes hb{uri};
        web::FetchFromFileSystem::serve(&h, hb.view(), &r);
        r.finish();
        checkOpened(rootNode, "fetching \"" + uri + "\"");
        std::string path = uri.substr(0, uri.find('?'));
        Named n = named(rootNode, path);
        std::string type, ext;
        size_t dot = n.last.rfind('.');
        if (dot != std::string::npos && n.last.find_first_not_of('.') < dot) ext = n.last.substr(dot);
        static const std::map<std::string, std::string> types = {{".woff2", "font/woff2"}, {".woff", "font/woff"}, {".ttf", "font/ttf"}, {".eot", "application/vnd.ms-fontobject"}, {".png", "image/png"}, {".css", "text/css"}, {".svg", "image/svg+xml"}, {".js", "text/javascript"}};
        if (types.count(ext)) type = types.at(ext);
        bool isFile = !n.escapes && n.node >= 0 && F.nodes[n.node].kind == memfs::FILE_;
        bool must = isFile && !type.empty() && !n.odd;
        bool may = isFile && !type.empty();
        bool ok = r.code == web::ResponseCode::OK;
        MC_LOG("\"%s\" in \"%s\" -> %s", esc(uri).c_str(), rootDir, ok ? "served" : "refused");
        if (must) MC_CHECK(ok, "fetching \"%s\" in \"%s\", a file, gives an error", esc(uri).c_str(), rootDir);
        if (!may) MC_CHECK(!ok, "fetching \"%s\" in \"%s\", not a file to be served, gives \"%s\"", esc(uri).c_str(), rootDir, esc(r.body.substr(0, 40)).c_str());
        if (ok) {
            MC_CHECK(r.body == F.nodes[n.node].data, "fetching \"%s\" gives \"%s\"", esc(uri).c_str(), esc(r.body).c_str());
            MC_CHECK(r.field("Content-Type") == type, "\"%s\" has the type \"%s\"", esc(uri).c_str(), r.field("Content-Type").c_str());
            mc::nontrivial();
        } else MC_CHECK(r.code == web::ResponseCode::NotFound, "fetching \"%s\" gives code %d", esc(uri).c_str(), (int) r.code);
        mc::state(hstr(r.body, (int) r.code));
        mc::step();
    }
    F.active = false;
}
static void fetch() {
    std::string uri = choosePath(names(), pick(3, 4));
    mc::casef("%s", esc(uri).c_str());
    for (const char* root : ROOTS) fetchOne(uri, root);
}
static void types() { // every name in the root, in both directories, with a query or without
    static const std::vector<std::string> v = {"a.png", "b.min.js", "x.css", "noext", ".png", "...png", "t.txt", "e.png", "d", "pages", "missing.png", "A.PNG", "a.pngx", "a.", "/top/www/a.png", "//a.png", "/secret.png", "//secret.png"};
    static const std::vector<std::string> q = {"", "?", "?1?2", "?/../../secret.png", "?a.css"};
    std::string uri = (choose(2) ? "/" : "") + v[choose((int) v.size())] + q[choose(5)];
    mc::casef("%s", esc(uri).c_str());
    for (const char* root : ROOTS) fetchOne(uri, root);
    // every type, and their case and neighbours
    static const std::vector<std::string> exts = {".woff2", ".woff", ".ttf", ".eot", ".png", ".css", ".svg", ".js", ".html", ".woff3", ".j", ".jss"};
    for (auto& e : exts) {
        tree();
        memfs::add(rootNode, "n" + e, memfs::FILE_, "N" + e);
        web::FetchFromFileSystem h;
        h.rootDir = "/top/www";
        Response r;
        std::string u = "/n" + e;
        web::FetchFromFileSystem::serve(&h, view(u), &r);
        r.finish();
        static const std::map<std::string, std::string> types = {{".woff2", "font/woff2"}, {".woff", "font/woff"}, {".ttf", "font/ttf"}, {".eot", "application/vnd.ms-fontobject"}, {".png", "image/png"}, {".css", "text/css"}, {".svg", "image/svg+xml"}, {".js", "text/javascript"}};
        if (types.count(e)) MC_CHECK(r.code == web::ResponseCode::OK && r.field("Content-Type") == types.at(e) && r.body == "N" + e, "\"%s\" is served as \"%s\"", u.c_str(), r.field("Content-Type").c_str());
        else MC_CHECK(r.code == web::ResponseCode::NotFound, "\"%s\" is served", u.c_str());
        F.active = false;
    }
}
static std::vector<std::string> splitLines(const std::string& text) { // as text is loaded: line endings become \n
    std::vector<std::string> v;
    std::string l;
    for (char c : text) { if (c == '\r') continue; l += c; if (c == '\n') { v.push_back(l); l.clear(); } }
    if (!l.empty()) v.push_back(l);
    return v;
}
static void sourceOne(const std::string& uri, const char* rootDir) {
    {
        web::SourceCode h;
        h.rootDir = rootDir;
        Response r;
        HeapBytes hb{uri};
        web::SourceCode::serve(&h, hb.view(), &r);
        r.finish();
        checkOpened(rootNode, "showing \"" + uri + "\"");
        Named n = named(rootNode, uri);
        bool isFile = !n.escapes && n.node >= 0 && F.nodes[n.node].kind == memfs::FILE_;
        bool ok = r.code == web::ResponseCode::OK;
        MC_LOG("\"%s\" in \"%s\" -> %s", esc(uri).c_str(), rootDir, ok ? "shown" : "refused");
        if (isFile && !n.odd) MC_CHECK(ok, "showing \"%s\" in \"%s\", a file, gives an error", esc(uri).c_str(), rootDir);
        if (!isFile) MC_CHECK(!ok, "showing \"%s\" in \"%s\", which is not a file in the root, succeeds", esc(uri).c_str(), rootDir);
        if (ok) {
            // the rows, in order, hold exactly the lines
            std::vector<std::string> want = splitLines(F.nodes[n.node].data);
            size_t pos = r.body.find("<tbody>");
            MC_CHECK(pos != std::string::npos, "no table");
            bool binary = F.nodes[n.node].data.find('\0') != std::string::npos;
            for (size_t i = 0; !binary && i < want.size(); i++) {
                std::string open = "<td id=\"LC" + std::to_string(i + 1) + "\">";
                size_t a = r.body.find(open, pos);
                MC_CHECK(a != std::string::npos, "line %zu of \"%s\" is missing", i + 1, esc(uri).c_str());
                a += open.size();
                size_t b = r.body.find('<', a);
                std::string got = unXml(r.body.substr(a, b - a));
                MC_CHECK(got == want[i], "line %zu of \"%s\" is \"%s\" instead of \"%s\"", i + 1, esc(uri).c_str(), esc(got).c_str(), esc(want[i]).c_str());
                pos = b;
            }
            if (!binary) MC_CHECK(r.body.find("<td id=", pos) == std::string::npos, "\"%s\" has lines too many", esc(uri).c_str());
            MC_CHECK(r.body.find("<title>" + xml(n.last) + "</title>") != std::string::npos, "the title is not the name \"%s\"", esc(n.last).c_str());
            MC_CHECK(r.field("Content-Type") == "text/html", "the type is \"%s\"", r.field("Content-Type").c_str());
            mc::nontrivial();
        } else MC_CHECK(r.code == web::ResponseCode::NotFound, "showing \"%s\" gives code %d", esc(uri).c_str(), (int) r.code);
        mc::state(hstr(r.body, (int) r.code));
        mc::step();
    }
}
static void source() {
    std::vector<std::string> v = names();
    v[5] = "t.txt"; // instead of x.css
    std::string uri = choosePath(v, pick(3, 4));
    mc::casef("%s", esc(uri).c_str());
    for (const char* root : ROOTS) { tree(); sourceOne(uri, root); F.active = false; }
}
static void sourceText() { // every short text and names with special characters
    static const std::vector<std::string> a = {"a", "<", "&", "\"", "\n", "\r\n", " ", "\xc3\xa9", "</td>"};
    std::string text;
    int n = choose(pick(5, 6));
    for (int i = 0; i < n; i++) text += a[choose(9)];
    static const std::vector<std::string> fn = {"n.cpp", "<b>&.txt", "\"q\""};
    std::string name = n > 2 ? fn[0] : fn[choose(3)];
    tree();
    memfs::add(rootNode, name, memfs::FILE_, text);
    sourceOne(name, "/top/www");
    F.active = false;
}
static void docs() {
    static const std::vector<std::string> v = {"..", ".", "", "a", "d", "x", "secret", "pages", "index", "index.html", "empty", std::string("a\0b", 3)};
    std::string uri = choosePath(v, pick(3, 4));
    if (uri[0] == '/' && uri.size() > 1 && choose(2)) uri = "/top/www/pages" + uri;
    mc::casef("%s", esc(uri).c_str());
    for (const char* root : ROOTS) for (int only = 0; only < 2; only++) {
        tree();
        {
            web::DocServer ds;
            ds.init(root);
            F.opened.clear();
            Response r;
            HeapBytes hb{uri};
            if (only) ds.serveContentOnly(hb.view(), &r); else ds.serve(hb.view(), &r);
            r.finish();
            checkOpened(pagesNode, "the page \"" + uri + "\"");
            bool ok = r.code == web::ResponseCode::OK;
            MC_LOG("\"%s\" in \"%s\" -> %s", esc(uri).c_str(), root, ok ? "shown" : "refused");
            bool absolute = uri[0] == '/';
            Named n = named(pagesNode, uri);
            int page = -1;
            bool odd = n.odd || absolute;
            if (!n.escapes) {
                if (n.node >= 0 && F.nodes[n.node].kind == memfs::DIR_) { auto& k = F.nodes[n.node].kids; if (k.count("index.html")) page = k["index.html"]; }
                else {
                    Named h = named(pagesNode, n.plain + ".html");
                    if (h.node >= 0 && F.nodes[h.node].kind == memfs::FILE_) page = h.node;
                    if (h.odd) odd = true;
                    size_t sl = uri.rfind('/');
                    std::string tail = sl == std::string::npos ? uri : uri.substr(sl + 1);
                    if (tail == "." || tail == ".." || tail.empty()) odd = true; // a page named as a directory: either way
                }
            }
            if (page >= 0 && !odd) MC_CHECK(ok, "the page \"%s\" in \"%s\" gives an error", esc(uri).c_str(), root);
            if (page < 0 || absolute) MC_CHECK(!ok, "the page \"%s\" in \"%s\", which does not exist, is shown", esc(uri).c_str(), root);
            if (ok) {
                std::string t = F.nodes[page].data, u;
                for (char c : t) if (c != '\r') u += c;
                size_t nl = u.find('\n');
                std::string title = u.substr(0, nl), rest = nl == std::string::npos ? "" : u.substr(nl + 1);
                while (!title.empty() && title.back() == ' ') title.pop_back();
                while (!title.empty() && title[0] == ' ') title.erase(0, 1);
                MC_CHECK(r.body.find(rest) != std::string::npos && r.body.find("<h1>" + title + "</h1>\n") != std::string::npos, "the page \"%s\" is not shown", esc(uri).c_str());
                if (only) MC_CHECK(r.body == title + "\n<h1>" + title + "</h1>\n" + rest, "the content of \"%s\" is \"%s\"", esc(uri).c_str(), esc(r.body).c_str());
                else MC_CHECK(r.body.find("<title>" + title + "</title>") != std::string::npos, "the title of \"%s\" is missing", esc(uri).c_str());
                mc::nontrivial();
            } else MC_CHECK(r.code == web::ResponseCode::NotFound, "the page \"%s\" gives code %d", esc(uri).c_str(), (int) r.code);
            mc::state(hstr(r.body, (int) r.code));
            mc::step();
        }
        F.active = false;
    }
}
// A table of contents
struct Toc { std::string title, link; std::vector<Toc> kids; };
static std::string pylon(const std::vector<Toc>& v) {
    std::string s = "[";
    for (auto& t : v) s += "{title: \"" + t.title + "\", linkDestination: \"" + t.link + "\", children: " + pylon(t.kids) + "},";
    return s + "]";
}
struct Item { std::string title, link; int depth; bool selected, expanded, caret; bool operator==(const Item& o) const { return title == o.title && link == o.link && depth == o.depth && selected == o.selected && expanded == o.expanded && caret == o.caret; } };
static bool expectItems(const std::vector<Toc>& v, const std::string& page, int depth, std::vector<Item>* out) {
    bool any = false;
    for (auto& t : v) {
        size_t at = out->size();
        out->push_back({t.title, t.link, depth, t.link == page && !page.empty(), false, !t.kids.empty()});
        bool in = expectItems(t.kids, page, depth + 1, out);
        (*out)[at].expanded = !t.kids.empty() && (in || (*out)[at].selected);
        any = any || in || (*out)[at].selected;
    }
    return any;
}
static std::string show(const std::vector<Item>& v) {
    std::string s;
    for (auto& i : v) s += "[" + std::to_string(i.depth) + " " + i.title + " " + i.link + (i.selected ? " selected" : "") + (i.expanded ? " expanded" : "") + (i.caret ? " caret" : "") + "]";
    return s;
}
// Reads the sidebar's list, checking that its tags nest
static std::vector<Item> readItems(const std::string& html) {
    std::vector<Item> items;
    size_t a = html.find("<div class=\"sidebar\">"), b = html.find("<article");
    MC_CHECK(a != std::string::npos && b != std::string::npos, "the page has no sidebar");
    std::string s = html.substr(a, b - a), text, link;
    std::vector<std::string> stack;
    int depth = 0;
    std::vector<bool> nestedOpen;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '<') { text += s[i]; continue; }
        size_t e = s.find('>', i);
        std::string tag = s.substr(i + 1, e - i - 1);
        i = e;
        if (tag[0] == '/') {
            MC_CHECK(!stack.empty() && stack.back() == tag.substr(1), "the sidebar closes <%s> inside <%s>", tag.substr(1).c_str(), stack.empty() ? "" : stack.back().c_str());
            stack.pop_back();
            if (tag == "/ul") depth--;
            if (tag == "/span") items.back().title = unXml(text);
            if (tag == "/a") link.clear();
            continue;
        }
        std::string name = tag.substr(0, tag.find(' '));
        stack.push_back(name);
        auto has = [&](const char* cls) { size_t c = tag.find("class=\""); if (c == std::string::npos) return false; std::string l = " " + tag.substr(c + 7, tag.find('"', c + 7) - c - 7) + " "; return l.find(" " + std::string(cls) + " ") != std::string::npos; };
        if (name == "ul") {
            depth++;
            if (depth > 1) MC_CHECK(!items.empty() && has("active") == items.back().expanded && items.back().caret, "the list below \"%s\" does not agree with its state", items.empty() ? "" : items.back().title.c_str());
        }
        if (name == "a") { size_t h = tag.find("href=\""); link = tag.substr(h + 6, tag.find('"', h + 6) - h - 6); }
        if (name == "li") items.push_back({"", link, depth, has("selected"), has("caret-down"), has("caret")});
        if (name == "span") text.clear();
    }
    return items;
}
static std::vector<Toc> chooseToc(int budget, int depth) {
    std::vector<Toc> v;
    int n = choose(std::min(budget, 2) + 1);
    for (int i = 0; i < n; i++) {
        Toc t;
        static const char* titles[] = {"A", "<&>"};
        static const char* links[] = {"", "/docs/a", "/docs/d/x", "/", "/docs/zz"};
        t.title = titles[depth & 1];
        t.link = links[choose(5)];
        v.push_back(t);
    }
    if (depth < 2) for (auto& t : v) t.kids = chooseToc(budget - n, depth + 1);
    return v;
}
static bool uniqueLinks(const std::vector<Toc>& v, std::set<std::string>& seen) {
    for (auto& t : v) { if (!t.link.empty() && !seen.insert(t.link).second) return false; if (!uniqueLinks(t.kids, seen)) return false; }
    return true;
}
static void contents() { // every small table of contents, and its replacement while serving
    std::vector<Toc> first = chooseToc(pick(3, 4), 0);
    int next = choose(5); // the file afterwards: unchanged, replaced, damaged, removed, appearing late
    std::set<std::string> seen;
    if (!uniqueLinks(first, seen)) { mc::markRedundant(); return; }
    std::vector<Toc> second = {{"New", "/docs/a", {{"Sub", "/docs/d/x", {}}}}};
    tree();
    int file = F.nodes[rootNode].kids["contents.pylon"];
    F.nodes[file].data = pylon(first); F.nodes[file].version = ++F.clock;
    if (next == 4) F.nodes[rootNode].kids.erase("contents.pylon");
    {
        web::DocServer ds;
        ds.init("/top/www");
        if (next == 4) {
            Response r;
            ds.serve("a", &r);
            r.finish();
            MC_CHECK(r.code == web::ResponseCode::InternalError, "without contents, the code is %d", (int) r.code);
            F.nodes[rootNode].kids["contents.pylon"] = file; F.nodes[file].version = ++F.clock;
        }
        std::vector<Toc>* cur = &first;
        for (int round = 0; round < 2; round++) {
            for (const char* page : {"a", "d/x", ""}) {
                Response r;
                ds.serve(StringView{page}, &r);
                r.finish();
                mc::step();
                if (cur->empty()) { MC_CHECK(r.code == web::ResponseCode::InternalError, "without contents, the code is %d", (int) r.code); continue; }
                MC_CHECK(r.code == web::ResponseCode::OK, "the page \"%s\" gives code %d", page, (int) r.code);
                std::vector<Item> want, got = readItems(r.body);
                expectItems(*cur, *page ? std::string("/docs/") + page : "/", 1, &want);
                MC_CHECK(got == want, "on the page \"%s\" the contents are %s instead of %s", page, show(got).c_str(), show(want).c_str());
                mc::state(hstr(show(got)));
                mc::nontrivial();
            }
            if (round) break;
            if (next == 1) { F.nodes[file].data = pylon(second); F.nodes[file].version = ++F.clock; cur = &second; }
            if (next == 2) { F.nodes[file].data = "[{title: \"x\", "; F.nodes[file].version = ++F.clock; }
            if (next == 3) F.nodes[rootNode].kids.erase("contents.pylon");
        }
    }
    F.active = false;
}
MC_SCENARIOS = {
    {"fetch", fetch, mc::LEAKS, "FetchFromFileSystem: every path of up to 3 (thorough 4) components over names, dots, encoded dots, NUL; five forms of the root"},
    {"types", types, mc::LEAKS, "FetchFromFileSystem: every kind of file, type and query"},
    {"source", source, mc::LEAKS, "SourceCode: every path of up to 3 (thorough 4) components"},
    {"sourceText", sourceText, mc::LEAKS, "SourceCode: every text of up to 4 (thorough 5) pieces"},
    {"docs", docs, mc::LEAKS, "DocServer: every page path of up to 3 (thorough 4) components, whole page and content only"},
    {"contents", contents, mc::LEAKS, "DocServer: every table of contents of up to 3 (thorough 4) entries, replaced, damaged, removed or appearing while serving"},
    MC_END};
