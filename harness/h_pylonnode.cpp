// Pylon nodes as property maps and arrays: every short sequence of operations against a list.
#include "pylontest.h"
#include <unordered_map>
using mc::pick;
using pylon::Node;
typedef std::vector<std::pair<std::string, std::string>> Model;
// two names whose hashes are equal, so that they share a chain in the index
static std::vector<std::string> names() {
    static std::vector<std::string> v;
    if (!v.empty()) return v;
    v = {"a", "b", ""};
    std::unordered_map<u32, int> seen;
    for (int i = 0; i < 400000; i++) {
        std::string s = "n" + std::to_string(i);
        Hasher h; h << view(s);
        auto r = seen.insert({h.result(), i});
        if (!r.second) { v.push_back("n" + std::to_string(r.first->second)); v.push_back(s); break; }
    }
    if (v.size() < 5) { v.push_back("c"); v.push_back("d"); }
    return v;
}
static std::string show(const Model& m) { std::string s; for (auto& k : m) s += esc(k.first) + "=" + k.second + " "; return s; }
static std::string textOf(const Node* n) { return n->isText() ? str(n->text()) : n->isValid() ? "?" : "-"; }
static void same(Node* n, const Model& m) {
    const Node* c = n;
    std::string got;
    for (auto& i : c->object().items) got += esc(str(i.key.view())) + "=" + textOf(i.value) + " ";
    MC_CHECK(got == show(m), "the properties are %s, last set were %s", got.c_str(), show(m).c_str());
    for (auto& k : names()) {
        std::string want = "-"; for (auto& x : m) if (x.first == k) want = x.second;
        HeapBytes hb{k};
        MC_CHECK(textOf(c->get(hb.view())) == want && textOf(n->get(hb.view())) == want, "property %s is %s, last set was %s", esc(k).c_str(), textOf(c->get(hb.view())).c_str(), want.c_str());
    }
    MC_CHECK(!c->get("other")->isValid(), "a property that was never set is found");
    MC_CHECK(c->isObject() && !c->isArray() && !c->isText() && c->isValid(), "the object is something else");
    MC_CHECK(!c->get(0u)->isValid() && c->arrayView().numItems == 0 && c->text().numBytes == 0, "an object answers as an array or text");
}
static void object() {
    auto v = names();
    int prefill = choose(3) * 6, n = choose(pick(5, 6)) + 1;
    Owned<Node> node = Node::createObject(77);
    Model m;
    auto set = [&](const std::string& k, const std::string& val) {
        String kk{view(k)};
        Borrowed<Node> b = choose(2) ? node->set(std::move(kk), Node::createText(String{view(val)})) : node->set(view(k), Node::createText(String{view(val)}));
        MC_CHECK(textOf(b) == val, "set returned %s", textOf(b).c_str());
        for (auto& x : m) if (x.first == k) { x.second = val; return; }
        m.push_back({k, val});
    };
    for (int i = 0; i < prefill; i++) { std::string k = "p" + std::to_string(i); String kk{view(k)}; node->set(std::move(kk), Node::createText("p")); m.push_back({k, "p"}); }
    std::string keep[8]; // names given as views must outlive the object
    for (int i = 0; i < n; i++) {
        int op = choose(prefill ? 12 : 11);
        mc::step();
        if (op < 5) { keep[i] = v[op]; MC_LOG("set %s", esc(v[op]).c_str()); std::string val = "v" + std::to_string(i);
            Borrowed<Node> b = node->set(view(v[op]), Node::createText(String{view(val)}));
            MC_CHECK(textOf(b) == val, "set returned %s", textOf(b).c_str());
            bool f = false; for (auto& x : m) if (x.first == v[op]) { x.second = val; f = true; }
            if (!f) m.push_back({v[op], val});
        } else if (op < 10 || op == 11) {
            std::string k = op == 11 ? "p3" : v[op - 5];
            MC_LOG("remove %s", esc(k).c_str());
            std::string want = "-"; for (size_t j = 0; j < m.size(); j++) if (m[j].first == k) { want = m[j].second; m.erase(m.begin() + j); break; }
            Owned<Node> r = node->remove(view(k));
            MC_CHECK((r ? textOf(r) : "-") == want, "remove gave %s, last set was %s", r ? textOf(r).c_str() : "-", want.c_str());
        } else { MC_LOG("copy"); Owned<Node> c = node->copy(); MC_CHECK(c->fileOfs == 77, "the copy's place is lost"); same(node, m); std::swap(node, c); }
    }
    (void) set;
    same(node, m);
    if (!m.empty()) mc::nontrivial();
    mc::state(hstr(show(m)));
    MC_LOG("at the end: %s", show(m).c_str());
}
// wrongly typed and missing nodes
static void wrong() {
    int kind = choose(4), n = choose(4), steps = choose(3) + 1;
    Owned<Node> root = kind == 0 ? Node::createInvalid() : kind == 1 ? Node::createText("12") : kind == 2 ? Node::createArray() : Node::createObject();
    for (int i = 0; i < n; i++) { if (kind == 2) root->array().append(i == 2 ? Node::createObject() : Node::createText("t")); if (kind == 3) root->set(std::vector<const char*>{"a", "b", "c"}[i % 3], i == 2 ? Node::createArray() : Node::createText("t")); }
    Borrowed<Node> at = root.borrow(); int depth = 0; int k = kind; int items = kind == 2 || kind == 3 ? n : 0;
    for (int s = 0; s < steps; s++) {
        int by = choose(2), i = choose(5);
        MC_LOG("%s %d", by ? "index" : "name", i);
        const Node* c = at;
        Borrowed<Node> next = by ? at->get((u32) (i == 4 ? 0xFFFFFFFFu : i)) : at->get(std::vector<StringView>{"a", "b", "c", "", "z"}[i]);
        const Node* cnext = by ? c->get((u32) (i == 4 ? 0xFFFFFFFFu : i)) : c->get(std::vector<StringView>{"a", "b", "c", "", "z"}[i]);
        MC_CHECK(cnext == next, "const and plain lookup differ");
        bool there = by ? k == 2 && i < items : k == 3 && i < items;
        MC_CHECK(next->isValid() == there, "%s lookup of %d in %d of %d items gives %s node", by ? "index" : "name", i, k, items, next->isValid() ? "a valid" : "an invalid");
        k = !there ? 0 : i == 2 ? (k == 2 ? 3 : 2) : 1; items = 0; at = next; depth++;
        mc::step();
        MC_CHECK(at->isText() == (k == 1) && at->isArray() == (k == 2) && at->isObject() == (k == 3), "the wrong kind of node");
        MC_CHECK(k == 2 || at->arrayView().numItems == 0, "items in what is not an array");
        const Node* ca = at;
        MC_CHECK(k == 3 || ca->object().items.numItems() == 0, "properties in what is not an object");
        MC_CHECK(str(at->text()) == (k == 1 ? "t" : ""), "the text is %s", str(at->text()).c_str());
        if (k != 1) MC_CHECK(!at->numeric().first, "a number in what is not a text");
        if (k != 3) { MC_CHECK(!at->remove("a"), "something is removed from what is not an object"); at->set("a", Node::createText("x")); MC_CHECK(!at->get("a")->isValid(), "a property of what is not an object"); }
        if (k != 1) { at->setText("x"); MC_CHECK(at->text().numBytes == 0, "the text of what is not a text"); }
        MC_CHECK(!Node::InvalidNodeHeader, "the missing value changed");
    }
    Owned<Node> copy = root->copy();
    MC_CHECK(copy->isValid() == (kind != 0) && copy->isText() == (kind == 1) && copy->isArray() == (kind == 2) && copy->isObject() == (kind == 3), "the copy is of another kind");
    if (kind) MC_CHECK(fromNode(copy).same(fromNode(root), true), "the copy differs");
    mc::nontrivial(); mc::state(kind * 1000 + n * 100 + k * 10 + depth);
}
// arrays: append, insert, erase, assign, look up, copy
static void array() {
    int n = choose(pick(6, 7) + 1);
    Owned<Node> a = Node::createArray(5);
    std::vector<std::string> m;
    for (int i = 0; i < n; i++) {
        int op = choose(5); mc::step();
        std::string v = "v" + std::to_string(i);
        auto make = [&] { return Node::createText(String{view(v)}); };
        if (op == 0) { a->array().append(make()); m.push_back(v); MC_LOG("append"); }
        else if (op == 1) { u32 k = choose((int) m.size() + 1); a->array().insert(k) = make(); m.insert(m.begin() + k, v); MC_LOG("insert %u", k); }
        else if (op == 2 && !m.empty()) { u32 k = choose((int) m.size()); a->array().erase(k); m.erase(m.begin() + k); MC_LOG("erase %u", k); }
        else if (op == 3 && !m.empty()) { u32 k = choose((int) m.size()); a->array()[k] = make(); m[k] = v; MC_LOG("assign %u", k); }
        else if (op == 4) { Owned<Node> c = a->copy(); std::swap(a, c); MC_LOG("copy"); }
        else return;
        const Node* c = a;
        MC_CHECK(c->arrayView().numItems == m.size(), "%u items, expected %zu", c->arrayView().numItems, m.size());
        for (u32 k = 0; k < m.size() + 2; k++) MC_CHECK(textOf(c->get(k)) == (k < m.size() ? m[k] : "-"), "item %u is %s", k, textOf(c->get(k)).c_str());
    }
    std::string s; for (auto& x : m) s += x;
    if (!m.empty()) mc::nontrivial();
    mc::state(hstr(s));
}
MC_SCENARIOS = {
    {"object", object, mc::LEAKS, "every sequence of set, remove and copy over five names, two of them with equal hashes"},
    {"wrong", wrong, mc::LEAKS, "chains of lookups through missing and wrongly typed nodes"},
    {"array", array, mc::LEAKS, "every sequence of array operations"},
    MC_END};
