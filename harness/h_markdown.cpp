// Markdown to HTML: every short text, and every small document against the tree it was written from.
#include "common.h"
#include <web-markdown/Markdown.h>
#include <ply-runtime/io/OutStream.h>
#include <memory>
using markdown::Node;

//---------------------------------------------------------------- a strict reader of the HTML
struct Dom { std::string tag, attr, text; std::vector<Dom> kids; };
static bool blockTag(const std::string& t) { return t == "ul" || t == "ol" || t == "blockquote" || t == "p" || t == "pre" || (t.size() == 2 && t[0] == 'h' && t[1] >= '1' && t[1] <= '6'); }
static std::string entities(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        MC_CHECK(s[i] != '>' && s[i] != '<', "'%c' in the text \"%s\"", s[i], esc(s).c_str());
        if (s[i] != '&') { o += s[i]; continue; }
        size_t e = s.find(';', i);
        std::string n = e == std::string::npos ? "" : s.substr(i + 1, e - i - 1);
        if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "#39" || n == "apos") o += '\''; else if (n == "nbsp") o += "\xc2\xa0";
        else mc::fail("a bare '&' in the text \"%s\"", esc(s).c_str());
        i = e;
    }
    return o;
}
struct Reader {
    const std::string& s; size_t p = 0;
    Reader(const std::string& s) : s(s) {}
    void kids(Dom* d, bool inLink, int depth) {
        MC_CHECK(depth < 200, "elements nest without end");
        const std::string& t = d->tag;
        bool flow = t == "" || t == "blockquote" || t == "li", list = t == "ul" || t == "ol", inl = t == "p" || t == "em" || t == "strong" || t == "a" || t[0] == 'h';
        for (;;) {
            size_t lt = s.find('<', p);
            std::string raw = s.substr(p, (lt == std::string::npos ? s.size() : lt) - p);
            p += raw.size();
            if (!raw.empty()) {
                std::string u = entities(raw);
                bool blank = u.find_first_not_of(" \n") == std::string::npos;
                MC_CHECK(blank || inl || t == "li" || t == "code", "text \"%s\" directly in <%s>", esc(u).c_str(), t.c_str());
                Dom x; x.tag = "#"; x.text = u;
                if (inl || t == "code" || t == "pre" || t == "li") d->kids.push_back(x);
            }
            if (p >= s.size()) { MC_CHECK(t == "", "<%s> is never closed", t.c_str()); return; }
            size_t gt = s.find('>', p);
            MC_CHECK(gt != std::string::npos, "a tag is never closed: \"%s\"", esc(s.substr(p, 40)).c_str());
            std::string tag = s.substr(p + 1, gt - p - 1);
            p = gt + 1;
            if (tag[0] == '/') { MC_CHECK(tag.substr(1) == t, "</%s> closes <%s>", esc(tag.substr(1)).c_str(), t.c_str()); return; }
            Dom k;
            size_t sp = tag.find(' ');
            k.tag = tag.substr(0, sp);
            if (sp != std::string::npos) k.attr = tag.substr(sp + 1);
            bool ok;
            if (blockTag(k.tag)) ok = flow;
            else if (k.tag == "li") ok = list;
            else if (k.tag == "em" || k.tag == "strong") ok = inl || t == "li";
            else if (k.tag == "a") ok = (inl || t == "li") && !inLink;
            else if (k.tag == "code") ok = inl || t == "pre" || t == "li";
            else { mc::fail("an unknown element <%s>", esc(tag).c_str()); ok = false; }
            MC_CHECK(ok, "<%s> inside <%s>", k.tag.c_str(), k.tag == "a" && inLink ? "a" : t.c_str());
            if (k.tag == "a") {
                MC_CHECK(k.attr.size() >= 7 && k.attr.substr(0, 6) == "href=\"" && k.attr.find('"', 6) == k.attr.size() - 1, "<a %s>", esc(k.attr).c_str());
                k.attr = entities(k.attr.substr(6, k.attr.size() - 7));
            } else if (k.tag == "ol" && !k.attr.empty()) {
                MC_CHECK(k.attr.size() > 8 && k.attr.substr(0, 7) == "start=\"" && k.attr.find_first_not_of("0123456789", 7) == k.attr.size() - 1, "<ol %s>", esc(k.attr).c_str());
            } else MC_CHECK(k.attr.empty(), "<%s %s>", k.tag.c_str(), esc(k.attr).c_str());
            kids(&k, inLink || k.tag == "a", depth + 1);
            if (k.tag == "pre") MC_CHECK(k.kids.size() == 1 && k.kids[0].tag == "code", "<pre> holds something other than code");
            d->kids.push_back(k);
        }
    }
};
static Dom readHtml(const std::string& html) {
    Dom d;
    Reader r{html};
    r.kids(&d, false, 0);
    MC_CHECK(r.p == html.size(), "an element is closed twice");
    return d;
}
// Without the white space that means nothing
static void tidy(Dom* d) {
    std::vector<Dom> out;
    for (Dom& k : d->kids) {
        if (k.tag == "#" && !out.empty() && out.back().tag == "#") out.back().text += k.text;
        else out.push_back(k);
    }
    if (d->tag == "li" || d->tag == "p" || (d->tag.size() == 2 && d->tag[0] == 'h')) {
        for (size_t i = 0; i < out.size(); i++) {
            if (out[i].tag != "#") continue;
            if (i == 0 || blockTag(out[i - 1].tag)) out[i].text.erase(0, out[i].text.find_first_not_of(" \n") == std::string::npos ? out[i].text.size() : out[i].text.find_first_not_of(" \n"));
            if (i + 1 == out.size() || blockTag(out[i + 1].tag)) while (!out[i].text.empty() && strchr(" \n", out[i].text.back())) out[i].text.pop_back();
        }
        for (size_t i = 0; i < out.size();) if (out[i].tag == "#" && out[i].text.empty()) out.erase(out.begin() + i); else i++;
    }
    d->kids = out;
    for (Dom& k : d->kids) tidy(&k);
}
static std::string show(const Dom& d) {
    if (d.tag == "#") return d.text;
    std::string s = d.tag.empty() ? "" : "<" + d.tag + (d.attr.empty() ? "" : " " + d.attr) + ">";
    for (auto& k : d.kids) s += show(k);
    return s + (d.tag.empty() ? "" : "</" + d.tag + ">");
}
static std::string toHtml(const std::string& text) {
    HeapBytes hb{text};
    Owned<Node> doc = markdown::parse(hb.view());
    struct V {
        static void visit(const Node* n, const Node* parent) {
            MC_CHECK(n->parent == parent, "a node's parent is wrong");
            for (const Node* k : n->children) {
                bool ok = n->type == Node::List ? k->type == Node::ListItem : n->isContainerBlock() ? k->type != Node::ListItem && k->type != Node::Document && !k->isInlineElement() : k->isInlineElement();
                MC_CHECK(ok, "a node of type %d inside one of type %d", (int) k->type, (int) n->type);
                visit(k, n);
            }
        }
    };
    V::visit(doc, nullptr);
    MemOutStream d;
    markdown::dump(&d, doc);
    d.moveToString();
    MemOutStream m;
    markdown::convertToHTML(&m, doc, {});
    return str(m.moveToString());
}
// The characters that no rule of Markdown takes away
static std::string kept(const std::string& s) {
    std::string o;
    for (char c : s) if (isalpha((unsigned char) c) || (c & 0x80) || strchr("<&\"'$%,:;=?@{|}~^!/", c)) if (c) o += c;
    return o;
}
static void collect(const Dom& d, std::string* out) {
    if (d.tag == "#") *out += kept(d.text);
    for (auto& k : d.kids) collect(k, out);
    if (d.tag == "a") *out += kept(d.attr);
}
static void checkText(const std::string& text) {
    std::string html = toHtml(text);
    Dom d = readHtml(html);
    std::string got;
    collect(d, &got);
    MC_CHECK(got == kept(text), "\"%s\" keeps the characters \"%s\": \"%s\"", esc(text).c_str(), esc(got).c_str(), esc(html).c_str());
    mc::state(hstr(html));
    mc::step();
    if (html.find("<li>") != std::string::npos || html.find("<em>") != std::string::npos || html.find("<a ") != std::string::npos) mc::nontrivial();
}

static std::string textOf(const std::vector<std::string>& alpha, int maxLen) {
    std::string s;
    int n = choose(maxLen + 1);
    for (int i = 0; i < n; i++) s += alpha[choose((int) alpha.size())];
    return s;
}
static void blocks() {
    static const std::vector<std::string> alpha = {"a", " ", "\n", "*", ">", "#", "1.", "\t", "    ", "-"};
    static const std::vector<std::string> pre = {"", "* a\n", "> * a\n", "1. a\n\n", "      a\n"};
    std::string s = pre[choose(5)] + textOf(alpha, pick(4, 5));
    mc::casef("%s", esc(s).c_str());
    checkText(s);
}
static void lines() {
    static const std::vector<std::string> alpha = {"a\n", "\n", "* b\n", "  c\n", "    d\n", "> e\n", "1. f\n", "# g\n", "      h\n", "*\n", "* \n", ">\n", "  * i\n", "> * j\n", "   k\n", "      - l\n", "* * m\n", "\t n\n", "2) o\n", "* # p\n", "#\n", ">     q\n", "          r\n", "1.     s\n"};
    std::string s = textOf(alpha, pick(3, 4));
    if (choose(2) && !s.empty()) s.pop_back();
    mc::casef("%s", esc(s).c_str());
    checkText(s);
}
static void inlines() {
    static const std::vector<std::string> alpha = {"a", "*", "_", "`", "[", "](", ")", "\\", "\n", "<", " ", "]", "b"};
    static const std::vector<std::string> pre = {"", "[a", "# ", "`"};
    std::string s = pre[choose(4)] + textOf(alpha, pick(4, 5));
    mc::casef("%s", esc(s).c_str());
    checkText(s);
}
static void bytes() { // every byte, alone, in pairs of special ones, and in every place a marker may be
    int b = choose(256);
    static const std::vector<std::string> frames = {"@", "@a", "a@", "a@b", "* @", "*@a", "> @a", ">@", "1@ a", "1.@a", "12345678@ a", "    @", "    a\n@\n    b", "#@ a", "# @", "`@`", "[@](b)", "[a](@)", "[a](b@c)", "*@*", "*a@*", "@*a*", "a\n@", "@\na", "* a\n@", "* a\n  @b", "> a\n@b", "[a](\\@)"};
    for (auto& f : frames) for (int two = 0; two < 2; two++) {
        std::string t = f;
        size_t at = t.find('@');
        std::string r(1, (char) b);
        if (two) r += "\r";
        t.replace(at, 1, r);
        mc::casef("%s", esc(t).c_str());
        checkText(t);
    }
}
static void numbers() { // ordered lists start at any number of up to nine digits
    static const std::vector<std::string> nums = {"0", "1", "2", "9", "10", "007", "123456789", "999999999", "000000001", "1234567890", "4294967297", "18446744073709551617", "99999999999999999999999"};
    std::string n = nums[choose((int) nums.size())];
    char punc = choose(2) ? '.' : ')';
    std::string s = n + punc + " x\n";
    int para = choose(2);
    if (para) s = "p\n" + s;
    Dom d = readHtml(toHtml(s));
    tidy(&d);
    std::string got = show(d), want;
    long v = atol(n.c_str());
    bool list = n.size() <= 9 && (!para || v == 1);
    if (list) want = std::string(para ? "<p>p</p>" : "") + (v == 1 ? "<ol>" : "<ol start=\"" + std::to_string(v) + "\">") + "<li>x</li></ol>";
    else want = para ? "<p>p\n" + n + punc + " x</p>" : "<p>" + n + punc + " x</p>";
    MC_CHECK(got == want, "\"%s\" becomes %s instead of %s", esc(s).c_str(), esc(got).c_str(), esc(want).c_str());
    mc::nontrivial();
}
//---------------------------------------------------------------- emphasis
struct Tok { char kind; size_t n; bool open, close; std::string html; }; // kind: * _ or t (finished)
static bool punc(char c) { return ispunct((unsigned char) c) && !(c & 0x80); }
static std::string emphasis(const std::string& s) { // CommonMark's rules, except the one on multiples of three
    std::vector<Tok> v;
    for (size_t i = 0; i < s.size();) {
        size_t j = i;
        if (s[i] == '*' || s[i] == '_') {
            while (j < s.size() && s[j] == s[i]) j++;
            char before = i ? s[i - 1] : ' ', after = j < s.size() ? s[j] : ' ';
            bool left = after != ' ' && (!punc(after) || before == ' ' || punc(before)), right = before != ' ' && (!punc(before) || after == ' ' || punc(after));
            if (s[i] == '_' && left && right) { left = punc(before); right = punc(after); } // not inside words
            v.push_back({s[i], j - i, left, right, ""});
        } else { while (j < s.size() && s[j] != '*' && s[j] != '_') j++; v.push_back({'t', 0, false, false, s.substr(i, j - i)}); }
        i = j;
    }
    for (size_t c = 0; c < v.size();) {
        if (v[c].kind == 't' || !v[c].close) { c++; continue; }
        size_t o = c;
        bool found = false;
        while (o > 0) { o--; if (v[o].kind == v[c].kind && v[o].open) { found = true; break; } }
        if (!found) { c++; continue; }
        size_t use = v[o].n >= 2 && v[c].n >= 2 ? 2 : 1;
        std::string in;
        for (size_t k = o + 1; k < c; k++) in += v[k].kind == 't' ? v[k].html : std::string(v[k].n, v[k].kind);
        Tok e{'t', 0, false, false, use == 2 ? "<strong>" + in + "</strong>" : "<em>" + in + "</em>"};
        v[o].n -= use; v[c].n -= use;
        size_t from = v[o].n ? o + 1 : o, to = v[c].n ? c : c + 1;
        v.erase(v.begin() + from, v.begin() + to);
        v.insert(v.begin() + from, e);
        c = from + 1;
    }
    std::string out;
    for (auto& t : v) out += t.kind == 't' ? t.html : std::string(t.n, t.kind);
    return out;
}
static void emphases() {
    static const std::vector<std::string> alpha = {"a", "*", "_", " ", "."};
    static const std::vector<std::string> pre = {"", " _a* b* c_", "*a_ b_ c*", "**a*_ b_"};
    int p = choose(4);
    std::string s = pre[p] + textOf(alpha, p ? pick(4, 6) : pick(6, 8));
    // as one paragraph, not a list and without white space at the ends
    s = "x" + s + "y";
    mc::casef("%s", s.c_str());
    Dom d = readHtml(toHtml(s));
    std::string got = show(d), want = "<p>" + emphasis(s) + "</p>";
    MC_CHECK(got == want, "\"%s\" becomes %s instead of %s", s.c_str(), got.c_str(), want.c_str());
    if (want.find("<em>") != std::string::npos) mc::nontrivial();
    mc::state(hstr(want));
    mc::step();
}
//---------------------------------------------------------------- documents written from a tree
//---------------------------------------------------------------- markers and indentation
static void markers() { // which items make up one list
    static const std::vector<std::string> ms = {"*", "-", "+", "1.", "1)", "2.", "2)"};
    int n = pick(3, 4), loose = choose(2);
    std::string md, want, open;
    for (int i = 0; i < n; i++) {
        const std::string& m = ms[choose((int) ms.size())];
        bool ord = isdigit((unsigned char) m[0]);
        std::string kind = ord ? m.substr(1) : m, w(1, (char) ('a' + i));
        bool same = kind == open;
        if (i && loose) md += "\n";
        md += m + " " + w + "\n";
        if (!same) {
            if (!open.empty()) want += open == "." || open == ")" ? "</ol>" : "</ul>";
            want += !ord ? "<ul>" : m[0] == '1' ? "<ol>" : "<ol start=\"2\">";
        }
        want += same || !loose ? "<li>" + w + "</li>" : "<li>" + w + "</li>";
        open = kind;
    }
    want += open == "." || open == ")" ? "</ol>" : "</ul>";
    mc::casef("%s", esc(md).c_str());
    Dom d = readHtml(toHtml(md));
    tidy(&d);
    if (loose) { // a list of more than one item is loose
        for (Dom& l : d.kids) for (Dom& it : l.kids) {
            bool p = it.kids.size() == 1 && it.kids[0].tag == "p";
            MC_CHECK(p == (l.kids.size() > 1), "\"%s\": a list of %d items is %s", esc(md).c_str(), (int) l.kids.size(), p ? "loose" : "tight");
            if (p) { Dom x = it.kids[0].kids[0]; it.kids[0] = x; }
        }
    }
    std::string got = show(d);
    MC_CHECK(got == want, "\"%s\" becomes %s instead of %s", esc(md).c_str(), got.c_str(), want.c_str());
    mc::nontrivial();
    mc::state(hstr(want + (loose ? "l" : "")));
}
static void headings() { // one to six signs, and then white space or nothing
    int level = 1 + choose(8), indent = choose(5), form = choose(5), para = choose(2);
    std::string sign(level, '#');
    static const std::vector<std::string> forms = {" t", "", "\tt", "t", " \t t \t"};
    std::string line = sign + forms[form], md = (para ? "p\n" : "") + std::string(indent, ' ') + line + "\nq\n";
    std::string h = "<h" + std::to_string(level) + ">" + (form == 1 ? "" : "t") + "</h" + std::to_string(level) + ">", want;
    std::string plain = line;
    while (!plain.empty() && strchr(" \t", plain.back())) plain.pop_back();
    if (indent < 4 && level <= 6 && form != 3) want = (para ? "<p>p</p>" : "") + h + "<p>q</p>";
    else if (indent < 4 || para) want = std::string("<p>") + (para ? "p\n" : "") + plain + "\nq</p>";
    else want = "<pre><code>" + line + "\n</code></pre><p>q</p>";
    mc::casef("%s", esc(md).c_str());
    Dom d = readHtml(toHtml(md));
    tidy(&d);
    std::string got = show(d);
    MC_CHECK(got == want, "\"%s\" becomes %s instead of %s", esc(md).c_str(), esc(got).c_str(), esc(want).c_str());
    mc::nontrivial();
    mc::state(hstr(want));
}
static void tabs() { // white space before code counts in columns, with a tab stop every four, and what is beyond the margin stays
    static const std::vector<std::pair<std::string, int>> ctrs = {{"", 0}, {"> ", 2}, {"* ", 2}, {"10. ", 4}};
    auto& c = ctrs[choose(4)];
    std::string first = c.first[0] == '*' || c.first[0] == '1' ? c.first + "p\n\n" + std::string(c.second, ' ') : c.first;
    std::string ws;
    int len = choose(pick(5, 7)) + 1;
    for (int i = 0; i < len; i++) ws += choose(2) ? '\t' : ' ';
    int col = c.second;
    for (char x : ws) col = x == '\t' ? col / 4 * 4 + 4 : col + 1;
    int extra = col - c.second - 4;
    static const std::vector<std::string> rests = {"x", "x\ty", "x  \t"};
    std::string rest = rests[choose(3)], md = first + ws + rest + "\n";
    mc::casef("%s", esc(md).c_str());
    Dom d = readHtml(toHtml(md));
    tidy(&d);
    std::string got = show(d);
    size_t at = got.find("<code>");
    if (extra < 0) { MC_CHECK(at == std::string::npos, "\"%s\" has code: %s", esc(md).c_str(), esc(got).c_str()); return; }
    MC_CHECK(at != std::string::npos, "\"%s\" has no code: %s", esc(md).c_str(), esc(got).c_str());
    std::string in = got.substr(at + 6, got.find("</code>") - at - 6);
    // the white space kept is as wide as it was, and the rest as it was
    size_t n = in.find_first_not_of(" \t");
    int w = c.second + 4;
    for (size_t i = 0; i < n; i++) w = in[i] == '\t' ? w / 4 * 4 + 4 : w + 1;
    MC_CHECK(n != std::string::npos && w == col, "\"%s\": %d columns of white space in %s instead of %d", esc(md).c_str(), w - c.second - 4, esc(in).c_str(), extra);
    MC_CHECK(in.substr(n) == rest + "\n", "\"%s\" becomes the code \"%s\"", esc(md).c_str(), esc(in).c_str());
    mc::nontrivial();
    mc::state(hstr(md));
}
struct Inl { std::string md, html; };
static bool two(const std::string& md) { // two runs of delimiters in a row: a third may pair with the first
    size_t i = md.find_first_not_of(md.substr(0, 1));
    return !md.empty() && strchr("*_", md[0]) && i != std::string::npos && strchr("*_", md[i]);
}
static Inl chooseInline(int budget, int depth, bool inLink) {
    Inl r;
    switch (choose(depth > 0 ? (inLink ? 5 : 6) : 3)) {
        case 0: return {"w", "w"};
        case 1: return {"<&\"", "<&\""};
        case 2: { static const std::vector<Inl> cs = {{"`c*d`", "<code>c*d</code>"}, {"`` e`f ``", "<code>e`f</code>"}, {"`<b>&amp;`", "<code><b>&amp;</code>"}, {"`` ` ``", "<code>`</code>"}}; return cs[choose(4)]; }
        case 3: { Inl in = chooseInline(budget, depth - 1, inLink); if (two(in.md)) { mc::markRedundant(); return in; } std::string m = in.md[0] == '*' ? "_" : "*"; return {m + in.md + m, "<em>" + in.html + "</em>"}; }
        case 4: { Inl in = chooseInline(budget, depth - 1, inLink); if (two(in.md)) { mc::markRedundant(); return in; } std::string m = in.md[0] == '_' ? "**" : "__"; return {m + in.md + m, "<strong>" + in.html + "</strong>"}; }
        default: {
            Inl in = chooseInline(budget, depth - 1, true);
            static const std::vector<Inl> ds = {{"u/v.w", "u/v.w"}, {"a_(b)_", "a_(b)_"}, {"", ""}, {"x?y=\"<&\\)", "x?y=\"<&)"}, {" z ", "z"}, {"\nq\n", "q"}};
            Inl dst = ds[choose(6)];
            return {"[" + in.md + "](" + dst.md + ")", "<a " + dst.html + ">" + in.html + "</a>"};
        }
    }
}
static std::string domText(std::string s) { return s; }
static std::string fixA(std::string s) { // <a > is shown as <a>
    for (size_t p; (p = s.find("<a >")) != std::string::npos;) s.replace(p, 4, "<a>");
    return s;
}
static void inlineTrees() {
    Inl a = chooseInline(0, pick(2, 3), false);
    Inl b = choose(2) ? chooseInline(0, pick(1, 2), false) : Inl{"end", "end"};
    static const std::vector<Inl> seps = {{" ", " "}, {"\n", "\n"}, {" and ", " and "}};
    Inl sep = seps[choose(3)];
    int head = choose(3);
    std::string md = a.md + sep.md + b.md, html = a.html + sep.html + b.html;
    if (head == 1) { if (md.find('\n') != std::string::npos) { mc::markRedundant(); return; } md = "## " + md; html = "<h2>" + html + "</h2>"; }
    else if (head == 2) { md = "* " + md; for (size_t p = 0; (p = md.find('\n', p)) != std::string::npos; p += 3) md.replace(p, 1, "\n  "); html = "<ul><li>" + html + "</li></ul>"; }
    else html = "<p>" + html + "</p>";
    mc::casef("%s", esc(md).c_str());
    Dom d = readHtml(toHtml(md));
    tidy(&d);
    std::string got = show(d), want = fixA(html);
    MC_CHECK(got == want, "\"%s\" becomes %s instead of %s", esc(md).c_str(), esc(got).c_str(), esc(want).c_str());
    mc::nontrivial();
    mc::state(hstr(want));
    mc::step();
}
struct Blk { std::vector<std::string> lines; std::string html; int kind; bool blankInside = false; }; // kind: 0 paragraph, 1 heading, 2 code, 3 quote, 4 *, 5 -, 6 1., 7 3)
static std::vector<Blk> chooseBlocks(int maxN, int& budget, int depth, int* word, int after);
static Blk chooseBlock(int& budget, int depth, int* word, int after) {
    Blk b;
    budget--;
    auto w = [&] { return std::string(1, (char) ('a' + (*word)++ % 26)); };
    // two lists of the same kind would be one; code would continue other code; text after a paragraph needs the blank line it gets
    static const int all[] = {0, 1, 2, 3, 4, 6, 5, 7};
    int n = depth > 0 && budget > 0 ? (mc::tier() ? 8 : 6) : 3;
    b.kind = all[choose(n)];
    if (b.kind == after && (b.kind == 2 || b.kind == 3 || b.kind >= 4)) { mc::markRedundant(); b.kind = 0; }
    if (b.kind == 2 && after >= 4) b.kind = 1; // code after a list
    switch (b.kind) {
        case 0: {
            std::string x = w(), y = w();
            int two = choose(2);
            b.lines.push_back(x);
            if (two) b.lines.push_back(y);
            b.html = "<p>" + x + (two ? "\n" + y : "") + "</p>";
            break;
        }
        case 1: { std::string x = w(); int level = 1 + choose(2) * 5; b.lines.push_back(std::string(level, '#') + " " + x); b.html = "<h" + std::to_string(level) + ">" + x + "</h" + std::to_string(level) + ">"; break; }
        case 2: {
            std::string x = w();
            int form = choose(3);
            b.lines.push_back("    " + x + "<");
            b.html = "<pre><code>" + x + "<\n";
            if (form == 1) { b.lines.push_back("      * " + x); b.html += "  * " + x + "\n"; }
            if (form == 2) { b.lines.push_back(""); b.lines.push_back("     > " + x); b.html += "\n > " + x + "\n"; b.blankInside = true; }
            b.html += "</code></pre>";
            break;
        }
        case 3: {
            std::vector<Blk> in = chooseBlocks(2, budget, depth - 1, word, -1);
            b.html = "<blockquote>";
            for (size_t i = 0; i < in.size(); i++) {
                if (i) { b.lines.push_back(">"); b.blankInside = true; }
                for (auto& l : in[i].lines) b.lines.push_back(l.empty() ? ">" : "> " + l);
                b.html += in[i].html;
                b.blankInside = b.blankInside || in[i].blankInside;
            }
            b.html += "</blockquote>";
            break;
        }
        default: {
            bool ordered = b.kind >= 6;
            int items = 1 + choose(2);
            int start = b.kind == 7 ? 3 : 1;
            struct It { std::vector<Blk> in; };
            std::vector<It> its;
            for (int i = 0; i < items; i++) its.push_back({chooseBlocks(2, budget, depth - 1, word, -1)});
            // tight: no blank line between items, nor between the blocks of one
            bool canTight = true;
            for (auto& it : its) for (size_t k = 0; k < it.in.size(); k++) {
                if (k > 0 && !(it.in[k - 1].kind == 0 && (it.in[k].kind == 4 || it.in[k].kind == 5 || it.in[k].kind == 6 || it.in[k].kind == 3))) canTight = false;
                if (it.in[k].kind == 3 && it.in[k].blankInside && false) canTight = false;
            }
            bool tight = canTight && choose(2);
            if (!tight && items == 1) { bool twoBlocks = its[0].in.size() > 1; if (!twoBlocks) tight = true; }
            b.html = ordered ? (start == 1 ? "<ol>" : "<ol start=\"" + std::to_string(start) + "\">") : "<ul>";
            for (int i = 0; i < items; i++) {
                if (i && !tight) { b.lines.push_back(""); b.blankInside = true; }
                std::string mark = ordered ? std::to_string(start + i) + (b.kind == 7 ? ") " : ". ") : b.kind == 4 ? "* " : "- ", pad(mark.size(), ' ');
                b.html += "<li>";
                bool first = true;
                for (size_t k = 0; k < its[i].in.size(); k++) {
                    Blk& c = its[i].in[k];
                    if (k && !tight) { b.lines.push_back(""); b.blankInside = true; }
                    for (auto& l : c.lines) { b.lines.push_back(l.empty() ? "" : (first ? mark : pad) + l); first = false; }
                    std::string h = c.html;
                    if (tight && c.kind == 0) h = h.substr(3, h.size() - 7);
                    b.html += h;
                    if (c.blankInside) b.blankInside = true;
                }
                b.html += "</li>";
            }
            b.html += ordered ? "</ol>" : "</ul>";
        }
    }
    return b;
}
static std::vector<Blk> chooseBlocks(int maxN, int& budget, int depth, int* word, int after) {
    std::vector<Blk> v;
    int n = 1 + (budget > 1 ? choose(std::min(maxN, budget)) : 0);
    for (int i = 0; i < n; i++) { v.push_back(chooseBlock(budget, depth, word, after)); after = v.back().kind; }
    return v;
}
static void blockTrees() {
    int budget = pick(3, 4), word = 0;
    std::vector<Blk> v = chooseBlocks(2, budget, 2, &word, -1);
    std::string md, want;
    for (size_t i = 0; i < v.size(); i++) {
        if (i) md += "\n";
        for (auto& l : v[i].lines) md += l + "\n";
        want += v[i].html;
    }
    mc::casef("%s", esc(md).c_str());
    Dom d = readHtml(toHtml(md));
    tidy(&d);
    std::string got = show(d);
    MC_CHECK(got == want, "\"%s\" becomes %s instead of %s", esc(md).c_str(), esc(got).c_str(), esc(want).c_str());
    mc::nontrivial();
    mc::state(hstr(want));
    mc::step();
}
static void anchors() { // heading ids are escaped, in both forms
    static const std::vector<std::string> ids = {"", "a", "a\"b", "<&>"};
    std::string id = ids[choose(4)];
    bool child = choose(2);
    Owned<Node> doc = markdown::parse("## T *e*");
    doc->children[0]->id = view(id);
    MemOutStream m;
    markdown::HTMLOptions o;
    o.childAnchors = child;
    markdown::convertToHTML(&m, doc, o);
    std::string got = str(m.moveToString()), e;
    for (char c : id) e += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
    std::string want = id.empty() ? "<h2>T <em>e</em></h2>\n" : child ? "<h2 class=\"anchored\"><span class=\"anchor\" id=\"" + e + "\">&nbsp;</span>T <em>e</em></h2>\n" : "<h2 id=\"" + e + "\">T <em>e</em></h2>\n";
    MC_CHECK(got == want, "the heading with the id \"%s\" is %s", id.c_str(), got.c_str());
}
MC_SCENARIOS = {
    {"blocks", blocks, mc::LEAKS, "every text of up to 4 (thorough 5) pieces of block syntax after each of five beginnings"},
    {"lines", lines, mc::LEAKS, "every sequence of up to 3 (thorough 4) lines of 24 kinds"},
    {"inlines", inlines, mc::LEAKS, "every text of up to 4 (thorough 5) pieces of inline syntax after each of four beginnings"},
    {"bytes", bytes, mc::LEAKS, "every byte in every place where a marker may be"},
    {"numbers", numbers, mc::LEAKS, "ordered lists of every kind of start number"},
    {"markers", markers, mc::LEAKS, "every sequence of 3 (thorough 4) items with seven markers, tight and loose"},
    {"headings", headings, mc::LEAKS, "one to eight signs, indented by up to four spaces, in five forms"},
    {"tabs", tabs, mc::LEAKS, "every white space of up to 5 (thorough 7) spaces and tabs before code, in four containers"},
    {"emphases", emphases, mc::LEAKS, "every text of up to 6 (thorough 8) stars, underscores, spaces, letters and dots against the emphasis rules"},
    {"inlineTrees", inlineTrees, mc::LEAKS, "every pair of inline elements nested up to 2 (thorough 3) deep"},
    {"blockTrees", blockTrees, mc::LEAKS, "every document of up to 4 (thorough 5) blocks nested up to 2 (thorough 3) deep"},
    {"anchors", anchors, mc::LEAKS, "heading ids"},
    MC_END};
