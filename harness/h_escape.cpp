// Escaping and formatting: every short text over each context's special characters, undone by the
// standard rules of that context.
#include "iotest.h"
#include <ply-runtime/string/TextEncoding.h>
#include <web-common/URLEscape.cpp>

template <class T> static std::string print(const T& v) { MemOutStream o; o << v; return str(o.moveToString()); }
static std::string anyText(int n) { return chooseText({"a", "\"", "\\", "\n", "\t", "\x01", "\x1f", "\x7f", "x41", "\xc3\xa9", "\xff", "<", "&", "'", ">", " ", "%", "+"}, n); }

static void checkEscaped(const std::string& t) {
    HeapBytes hb{t};
    std::string e = print(fmt::EscapedString{hb.view()});
    mc::step();
    std::string te = esc(t);
    bool bs = false;
    for (char c : e) {
        MC_CHECK((u8) c >= 32, "\"%s\" is escaped as \"%s\", which contains a control character", te.c_str(), esc(e).c_str());
        if (!bs && c == '"') mc::fail("\"%s\" is escaped as \"%s\", which ends the string early", te.c_str(), esc(e).c_str());
        bs = !bs && c == '\\';
    }
    MC_CHECK(!bs, "\"%s\" is escaped as \"%s\", which hides the closing quote", te.c_str(), esc(e).c_str());
    std::string quoted = "\"" + e + "\"";
    for (const char* tail : {"", "x", "\""}) {
        std::string src = quoted + tail;
        if (t.empty() && tail[0] == '"') continue; // """ opens a multi-line string
        HeapBytes q{src};
        ViewInStream ins{q.view()};
        std::string back = str(ins.parse<fmt::QuotedString>());
        MC_CHECK(!ins.anyParseError() && ins.getSeekPos() == quoted.size(), "the quoted string %s cannot be read back", esc(src).c_str());
        if (back != t) { mc::casef("\"%s\"", te.c_str()); mc::fail("\"%s\" is escaped as \"%s\", which reads back as \"%s\"", te.c_str(), esc(e).c_str(), esc(back).c_str()); }
    }
}
static void escaped() {
    std::string t = anyText(pick(3, 5));
    mc::nontrivial(); mc::state(hstr(t));
    MC_LOG("\"%s\"", esc(t).c_str());
    checkEscaped(t);
    // the first n characters and an ellipsis
    std::vector<size_t> ends{0};
    while (ends.back() < t.size()) ends.push_back(ends.back() + UTF8::decodePoint(view(t).subStr((u32) ends.back())).numBytes);
    for (u32 n = 1; n <= 4; n++) {
        std::string cut = print(fmt::EscapedString{view(t), n}), want;
        bool all = ends.size() - 1 <= n;
        std::string first = t.substr(0, all ? t.size() : ends[n]);
        want = print(fmt::EscapedString{view(first)}) + (all ? "" : "...");
        MC_CHECK(cut == want, "the first %u characters of \"%s\" are escaped as \"%s\"", n, esc(t).c_str(), esc(cut).c_str());
        cut = print(fmt::XMLEscape{view(t), n}); want = print(fmt::XMLEscape{view(first)}) + (all ? "" : "...");
        MC_CHECK(cut == want, "the first %u characters of \"%s\" are XML-escaped as \"%s\"", n, esc(t).c_str(), esc(cut).c_str());
    }
}
static void allBytes() {
    int a = choose(256);
    mc::nontrivial(); mc::state(a);
    MC_LOG("byte %02x", a);
    for (int b = -1; b < 256; b++) {
        std::string t(1, (char) a);
        if (b >= 0) t += (char) b;
        bool overlong = (a == 0xc0 || a == 0xc1); // not text
        if (!overlong) checkEscaped(t);
        if (b == 0 || b == 'A' || b == '0') checkEscaped(t + "f"); // a hexadecimal digit after it
        if (!overlong) checkEscaped("0" + t);
        // URL
        std::string u = print(web::URLEscape{view(t)}), back;
        mc::step();
        for (size_t i = 0; i < u.size(); i++) {
            MC_CHECK(isalnum((u8) u[i]) || strchr("-_.~%", u[i]), "\"%s\" in a URL is \"%s\"", esc(t).c_str(), esc(u).c_str());
            if (u[i] == '%') {
                MC_CHECK(i + 2 < u.size() && isxdigit((u8) u[i + 1]) && isxdigit((u8) u[i + 2]), "\"%s\" in a URL is \"%s\"", esc(t).c_str(), u.c_str());
                back += (char) strtol(u.substr(i + 1, 2).c_str(), nullptr, 16); i += 2;
            } else back += u[i];
        }
        MC_CHECK(back == t, "\"%s\" in a URL is \"%s\"", esc(t).c_str(), u.c_str());
    }
}
static void xml() {
    std::string t = chooseText({"a", "<", ">", "&", "\"", "amp;", "&lt;", "\xc3\xa9", "\xe2", "\x80", "\xff", ";", "#"}, pick(4, 5));
    mc::nontrivial(); mc::state(hstr(t));
    MC_LOG("\"%s\"", esc(t).c_str());
    HeapBytes hb{t};
    std::string e = print(fmt::XMLEscape{hb.view()}), back;
    mc::step();
    for (size_t i = 0; i < e.size(); i++) {
        MC_CHECK(e[i] != '<' && e[i] != '>' && e[i] != '"', "\"%s\" is XML-escaped as \"%s\"", esc(t).c_str(), esc(e).c_str());
        if (e[i] != '&') { back += e[i]; continue; }
        static const char* const names[] = {"&lt;", "&gt;", "&quot;", "&amp;"};
        static const char chars[] = "<>\"&";
        int k = 0;
        while (k < 4 && e.compare(i, strlen(names[k]), names[k]) != 0) k++;
        MC_CHECK(k < 4, "\"%s\" is XML-escaped as \"%s\"", esc(t).c_str(), esc(e).c_str());
        back += chars[k]; i += strlen(names[k]) - 1;
    }
    MC_CHECK(back == t, "\"%s\" is XML-escaped as \"%s\"", esc(t).c_str(), esc(e).c_str());
}
// How the Microsoft C runtime divides a command line into arguments
static std::vector<std::string> crt(const std::string& c) {
    std::vector<std::string> args;
    size_t i = 0;
    for (;;) {
        while (i < c.size() && (c[i] == ' ' || c[i] == '\t')) i++;
        if (i >= c.size()) return args;
        std::string a; bool in = false;
        while (i < c.size() && (in || (c[i] != ' ' && c[i] != '\t'))) {
            size_t n = 0;
            while (i < c.size() && c[i] == '\\') { n++; i++; }
            if (i < c.size() && c[i] == '"') {
                a.append(n / 2, '\\');
                if (n % 2) { a += '"'; i++; }
                else if (in && i + 1 < c.size() && c[i + 1] == '"') { a += '"'; i += 2; }
                else { in = !in; i++; }
            } else {
                a.append(n, '\\');
                if (n == 0 && i < c.size()) a += c[i++];
            }
        }
        args.push_back(a);
    }
}
static void cmdLine() {
    std::vector<std::string> args;
    int n = 1 + choose(2);
    std::string line = "prog";
    for (int k = 0; k < n; k++) {
        args.push_back(chooseText({"a", " ", "\"", "\\", "\t"}, n == 1 ? pick(6, 8) : pick(3, 4)));
        line += " " + print(fmt::CmdLineArg_WinCrt{view(args.back())});
    }
    mc::nontrivial(); mc::state(hstr(line)); mc::step();
    MC_LOG("%s", esc(line).c_str());
    std::vector<std::string> got = crt(line);
    if (!got.empty()) got.erase(got.begin());
    if (got != args) {
        std::string g; for (const std::string& a : got) g += "[" + esc(a) + "]";
        std::string w; for (const std::string& a : args) w += "[" + esc(a) + "]";
        mc::fail("the arguments %s become the command line %s, which is read as %s", w.c_str(), esc(line).c_str(), g.c_str());
    }
}
// format(): every valid format string, arguments of every type and content
static void format() {
    static const char* const pieces[] = {"{{", "}}", "{}", "a", "\xc3\xa9"};
    int n = choose(pick(5, 6) + 1), holes = 0;
    std::string f, want;
    static const char* const contents[] = {"", "{}", "{{", "}", "%s", "\\"};
    std::string a[3];
    int c0 = choose(6);
    for (int i = 0; i < 3; i++) a[i] = contents[(c0 + i * 5) % 6];
    for (int i = 0; i < n; i++) {
        int k = choose(5);
        if (k == 2) { if (holes == 3) return; want += a[holes++]; }
        else want += k == 0 ? "{" : k == 1 ? "}" : pieces[k];
        f += pieces[k];
    }
    mc::nontrivial(); mc::state(hstr(f, c0));
    MC_LOG("\"%s\" with %d arguments", f.c_str(), holes);
    HeapBytes hf{f}, h0{a[0]}, h1{a[1]}, h2{a[2]};
    String s;
    if (holes == 0) s = String::format(hf.view());
    else if (holes == 1) s = String::format(hf.view(), h0.view());
    else if (holes == 2) s = String::format(hf.view(), h0.view(), String{h1.view()});
    else s = String::format(hf.view(), h0.view(), String{h1.view()}, HybridString{h2.view()});
    mc::step();
    MC_CHECK(str(s) == want, "format \"%s\" gives \"%s\" instead of \"%s\"", f.c_str(), esc(str(s)).c_str(), esc(want).c_str());
    // the same into a stream of small blocks, at the end of one
    for (int pre : {0, 126, 127}) {
        std::string got;
        {
            OutStream o{OptionallyOwned<OutPipe>{Owned<OutPipe>{new StrSink{&got}}}, 7};
            o << StringView{view(std::string(pre, 'p'))};
            if (holes == 0) o.format(hf.view());
            else if (holes == 1) o.format(hf.view(), h0.view());
            else if (holes == 2) o.format(hf.view(), h0.view(), h1.view());
            else o.format(hf.view(), h0.view(), h1.view(), h2.view());
        }
        mc::step();
        MC_CHECK(got == std::string(pre, 'p') + want, "format \"%s\" after %d bytes gives \"%s\"", f.c_str(), pre, esc(got).c_str());
    }
}
static void types() {
    mc::nontrivial(); mc::step(10);
    int c = choose(256);
    mc::state(c);
    MC_LOG("byte %d", c);
    MC_CHECK(print((char) c) == std::string(1, (char) c), "a char");
    char z[4] = {'a', (char) c, 'b', 0};
    std::string want = c ? std::string("a") + (char) c + "b" : "a";
    MC_CHECK(print((const char*) z) == want && print((char*) z) == want, "a C string");
    MC_CHECK(str(String::format("{}{}{}{}", (u8) c, (s8) c, (char) c, c > 127)) == std::to_string(c) + std::to_string((int) (signed char) c) + (char) c + (c > 127 ? "true" : "false"), "mixed arguments");
    MC_CHECK(str(String::format("{}", fmt::EscapedString{StringView{(const char*) z + 1, 1}})) == print(fmt::EscapedString{StringView{(const char*) z + 1, 1}}), "format with an escape");
    MC_CHECK(print("ab") == "ab" && print(fmt::Hex{(u8) c}) == print(fmt::WithRadix{(u64) c, 16}), "hexadecimal");
}
MC_SCENARIOS = {
    {"escaped", escaped, mc::LEAKS, "quoted strings: every text of up to 3 (4) pieces, whole and limited to n characters"},
    {"all-bytes", allBytes, mc::LEAKS, "every pair of bytes, quoted and in a URL"},
    {"xml", xml, mc::LEAKS, "XML text: every text over special characters, entities and malformed UTF-8"},
    {"command-line", cmdLine, mc::LEAKS, "Windows command lines: every one or two arguments over quotes, backslashes and spaces, read by the C runtime's rules"},
    {"format", format, mc::LEAKS, "every format string of up to 5 (6) pieces with arguments that look like formats"},
    {"types", types, mc::LEAKS, "every byte as char, C string, number"},
    MC_END,
};
