// Owned, OptionallyOwned, Reference, WeakRef, Functor, String, HybridString against ownership models
#include "common.h"
#include <ply-runtime/container/Owned.h>
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/WeakRef.h>
#include <ply-runtime/container/Functor.h>
#include <ply-runtime/container/HiddenArgFunctor.h>
#include <ply-runtime/container/SetInScope.h>

// --- Owned: nodes that own a successor, so that handles live inside what they destroy
struct Node {
    static std::set<int>& alive() { static std::set<int> s; return s; }
    int id;
    Owned<Node> next;
    Node(int id) : id(id) { alive().insert(id); }
    virtual ~Node() { MC_CHECK(alive().count(id), "node %d is destroyed twice", id); alive().erase(id); id = -1; }
};
struct Derived : Node { Tracked t; Derived(int id) : Node(id), t(id) {} };
static int g_id;
static Owned<Node> makeNode() {
    int id = ++g_id;
    if (id % 2) return Owned<Node>::create(id);
    return Owned<Derived>::create(id); // converts to the base
}
using Chain = std::vector<int>;
static void checkChains(Owned<Node>* v, Chain* m, int n) {
    size_t total = 0;
    uint64_t h = 1;
    for (int i = 0; i < n; i++) {
        Node* p = v[i];
        for (size_t k = 0; k < m[i].size(); k++) {
            MC_CHECK(p, "chain %d ends after %zu of %zu nodes", i, k, m[i].size());
            MC_CHECK(p->id == m[i][k], "chain %d has node %d at %zu, expected %d", i, p->id, k, m[i][k]);
            p = p->next;
        }
        MC_CHECK(!p, "chain %d is too long", i);
        total += m[i].size();
        h = mc::mix(h, m[i].size());
    }
    MC_CHECK(Node::alive().size() == total, "%zu nodes alive, %zu are owned", Node::alive().size(), total);
    if (total > 1) mc::nontrivial();
    mc::state(h);
}
static void owned() {
    Node::alive().clear();
    g_id = 0;
    {
        Owned<Node> v[3];
        Chain m[3];
        int D = pick(4, 5);
        for (int d = 0; d < D; d++) {
            int i = choose(2), j = 1 + choose(2); // handles 0,1 and 1,2: includes i == j
            int op = choose(11);
            mc::step();
            switch (op) {
                case 0: MC_LOG("v%d = new", i); v[i] = makeNode(); m[i] = {g_id}; break;
                case 1: MC_LOG("v%d = move(v%d)", i, j); if (i == j) break; v[i] = std::move(v[j]); m[i] = m[j]; m[j].clear(); break;
                case 2: if (m[i].empty()) break; MC_LOG("v%d = move(v%d->next)", i, i); v[i] = std::move(v[i]->next); m[i].erase(m[i].begin()); break;
                case 3: { MC_LOG("push front of v%d", i); Owned<Node> n = makeNode(); n->next = std::move(v[i]); v[i] = std::move(n); m[i].insert(m[i].begin(), g_id); break; }
                case 4: MC_LOG("v%d.clear()", i); v[i].clear(); m[i].clear(); break;
                case 5: { MC_LOG("release and adopt v%d", i); Node* p = v[i].release(); MC_CHECK(!v[i], "release left the pointer"); v[j] = nullptr; if (i != j) m[j].clear(); v[j] = Owned<Node>::adopt(p); if (i != j) { m[j] = m[i]; m[i].clear(); } break; }
                case 6: { if (m[i].empty() || i == j) break; MC_LOG("v%d->next = move(v%d)", i, j); v[i]->next = std::move(v[j]); m[i].resize(1); m[i].insert(m[i].end(), m[j].begin(), m[j].end()); m[j].clear(); break; }
                case 7: { MC_LOG("v%d = raw new", i); int id = ++g_id; v[i] = new Node{id}; m[i] = {id}; break; }
                case 8: { MC_LOG("move construct from v%d and drop", i); Owned<Node> t{std::move(v[i])}; MC_CHECK(t.get() == t.borrow().get() && !v[i], "move construction"); m[i].clear(); break; }
                case 9: { if (m[i].empty()) break; MC_LOG("v%d->next.clear()", i); v[i]->next.clear(); m[i].resize(1); break; }
                default: { if (m[i].size() < 2) break; MC_LOG("v%d = raw release of its successor", i); Node* p = v[i]->next.release(); v[i] = p; m[i].erase(m[i].begin()); break; }
            }
            checkChains(v, m, 3);
        }
    }
    MC_CHECK(Node::alive().empty(), "%zu nodes never destroyed", Node::alive().size());
}
static void optionally() {
    Node::alive().clear();
    g_id = 0;
    {
        Owned<Node> owner = Owned<Node>::create(1000); // for borrowing
        OptionallyOwned<Node> v[2];
        int m[2] = {0, 0}; // id or 0
        int D = pick(6, 8);
        for (int d = 0; d < D; d++) {
            int i = choose(2), op = choose(5);
            mc::step();
            switch (op) {
                case 0: MC_LOG("v%d = owned", i); v[i] = makeNode(); m[i] = g_id; break;
                case 1: if (m[i] == 1000) break; MC_LOG("v%d = borrowed", i); v[i] = owner.borrow(); m[i] = 1000; break;
                case 2: if (m[i] == m[!i]) break; MC_LOG("v%d = move(v%d)", i, !i); v[i] = std::move(v[!i]); m[i] = m[!i]; m[!i] = 0; break;
                case 3: { MC_LOG("release v%d", i); bool own = v[i].isOwned(); MC_CHECK(own == (m[i] && m[i] != 1000), "isOwned"); Node* p = v[i].release(); if (own) delete p; m[i] = 0; break; }
                default: { MC_LOG("move construct from v%d, drop", i); OptionallyOwned<Node> t{std::move(v[i])}; MC_CHECK(!v[i].get(), "moved-from is not empty"); m[i] = 0; break; }
            }
            size_t n = 1;
            for (int k = 0; k < 2; k++) {
                MC_CHECK((v[k].get() ? v[k]->id : 0) == m[k], "handle %d designates %d, expected %d", k, v[k].get() ? v[k]->id : 0, m[k]);
                MC_CHECK(v[k].isOwned() == (m[k] && m[k] != 1000), "handle %d isOwned", k);
                if (m[k] && m[k] != 1000) n++;
            }
            MC_CHECK(Node::alive().size() == n, "%zu nodes alive, expected %zu", Node::alive().size(), n);
            if (n > 1) mc::nontrivial();
            mc::state(mc::mix((m[0] ? 1 + (m[0] == 1000) : 0) * 3 + (m[1] ? 1 + (m[1] == 1000) : 0), 77));
        }
    }
    MC_CHECK(Node::alive().empty(), "%zu nodes never destroyed", Node::alive().size());
}
// --- Reference: shared nodes that refer to a successor
struct Shared : RefCounted<Shared> {
    int id;
    Reference<Shared> next;
    Shared(int id) : id(id) { Node::alive().insert(id); }
    ~Shared() { MC_CHECK(Node::alive().count(id), "object %d is destroyed twice", id); Node::alive().erase(id); id = -1; }
    void onRefCountZero() { delete this; }
};
static void reference() {
    Node::alive().clear();
    g_id = 0;
    {
        Reference<Shared> v[3];
        int m[3] = {0, 0, 0};         // id or 0
        std::map<int, int> nxt;       // id -> id of successor
        std::map<int, Shared*> at;
        auto reachable = [&](int from, int to) { for (int k = from; k; k = nxt.count(k) ? nxt[k] : 0) if (k == to) return true; return false; };
        int D = pick(4, 5);
        for (int d = 0; d < D; d++) {
            int i = choose(2), j = 1 + choose(2), op = choose(12);
            mc::step();
            switch (op) {
                case 0: { MC_LOG("v%d = new", i); Shared* s = new Shared{++g_id}; v[i] = s; m[i] = g_id; at[g_id] = s; break; }
                case 1: MC_LOG("v%d = v%d", i, j); v[i] = v[j]; m[i] = m[j]; break;
                case 2: MC_LOG("v%d = move(v%d)", i, j); if (i == j) break; v[i] = std::move(v[j]); m[i] = m[j]; m[j] = 0; break;
                case 3: if (!m[i]) break; MC_LOG("v%d = v%d->next", i, i); v[i] = v[i]->next; m[i] = nxt.count(m[i]) ? nxt[m[i]] : 0; break;
                case 4: { if (!m[i]) break; MC_LOG("v%d = move(v%d->next)", i, i); int k = m[i]; v[i] = std::move(v[i]->next); m[i] = nxt.count(k) ? nxt[k] : 0; nxt.erase(k); break; }
                case 5: if (!m[i] || reachable(m[j], m[i])) break; MC_LOG("v%d->next = v%d", i, j); v[i]->next = v[j]; nxt[m[i]] = m[j]; break;
                case 6: MC_LOG("v%d.clear()", i); v[i].clear(); m[i] = 0; break;
                case 7: { MC_LOG("copy of v%d into v2, through a temporary", i); Reference<Shared> t{v[i]}; v[2] = std::move(t); MC_CHECK(!t, "moved-from is not empty"); m[2] = m[i]; break; }
                case 8: { MC_LOG("v%d = pointer of v%d", i, j); v[i] = v[j].get(); m[i] = m[j]; break; }
                case 9: { MC_LOG("release v%d and drop by hand", i); Shared* s = v[i].release(); MC_CHECK(v[i].isEmpty(), "release left the pointer"); if (s) s->decRef(); m[i] = 0; break; }
                case 10: { if (!m[i]) break; MC_LOG("v%d = pointer of v%d->next", i, i); v[i] = v[i]->next.get(); m[i] = nxt.count(m[i]) ? nxt[m[i]] : 0; break; }
                default: { MC_LOG("v%d = v%d (itself)", i, i); Reference<Shared>& a = v[i]; v[i] = a; break; }
            }
            std::map<int, int> cnt; // id -> references
            std::set<int> live;
            for (int k = 0; k < 3; k++) if (m[k]) { cnt[m[k]]++; for (int x = m[k]; x; x = nxt.count(x) ? nxt[x] : 0) live.insert(x); }
            for (int x : live) if (nxt.count(x) && nxt[x]) cnt[nxt[x]]++;
            MC_CHECK(Node::alive() == live, "%zu objects alive, %zu are referenced", Node::alive().size(), live.size());
            for (int k = 0; k < 3; k++) {
                MC_CHECK((v[k] ? v[k]->id : 0) == m[k], "reference %d designates %d, expected %d", k, v[k] ? v[k]->id : 0, m[k]);
            }
            for (int x : live) {
                MC_CHECK(at[x]->getRefCount() == cnt[x], "object %d has reference count %d, expected %d", x, at[x]->getRefCount(), cnt[x]);
                MC_CHECK((at[x]->next ? at[x]->next->id : 0) == (nxt.count(x) ? nxt[x] : 0), "object %d's successor is wrong", x);
            }
            if (live.size()) mc::nontrivial();
            uint64_t h = 1;
            std::map<int, int> r;
            for (int k = 0; k < 3; k++) for (int x = m[k]; ; x = nxt.count(x) ? nxt[x] : 0) { h = mc::mix(h, r.emplace(x, r.size()).first->second); if (!x) break; }
            mc::state(h);
        }
    }
    MC_CHECK(Node::alive().empty(), "%zu objects never destroyed", Node::alive().size());
}
// --- strong and weak references
struct Dual : DualRefCounted<Dual> {
    static int& payloads() { static int n; return n; }
    static int& objects() { static int n; return n; }
    Tracked* payload;
    int id;
    Dual(int id) : payload(new Tracked{id}), id(id) { payloads()++; objects()++; }
    ~Dual() { MC_CHECK(!payload, "object freed while its payload is alive"); objects()--; }
    void onPartialRefCountZero() { MC_CHECK(payload, "payload destroyed twice"); delete payload; payload = nullptr; payloads()--; }
    void onFullRefCountZero() { delete this; }
};
static void weak() {
    Dual::payloads() = Dual::objects() = 0;
    g_id = 0;
    {
        Reference<Dual> s[2];
        WeakRef<Dual> w[2];
        Dual* ms[2] = {};
        Dual* mw[2] = {};
        int D = pick(5, 6);
        for (int d = 0; d < D; d++) {
            int i = choose(2), op = choose(9);
            mc::step();
            switch (op) {
                case 0: { MC_LOG("s%d = new", i); Dual* p = new Dual{++g_id}; s[i] = p; ms[i] = p; break; }
                case 1: MC_LOG("s%d = s%d", i, !i); s[i] = s[!i]; ms[i] = ms[!i]; break;
                case 2: MC_LOG("s%d = null", i); s[i] = (Dual*) nullptr; ms[i] = nullptr; break;
                case 3: MC_LOG("w%d = s%d", i, i); w[i] = (Dual*) s[i]; mw[i] = ms[i]; break;
                case 4: { if (mw[!i] && mw[!i] != ms[0] && mw[!i] != ms[1]) break; MC_LOG("w%d = w%d", i, !i); w[i] = w[!i]; mw[i] = mw[!i]; break; } // copying needs a strong reference
                case 5: MC_LOG("w%d = move(w%d)", i, !i); w[i] = std::move(w[!i]); mw[i] = mw[!i]; mw[!i] = nullptr; break;
                case 6: MC_LOG("w%d = null", i); w[i] = (Dual*) nullptr; mw[i] = nullptr; break;
                case 7: if (mw[i] || !ms[!i]) break; MC_LOG("w%d.setFromNull(s%d)", i, !i); w[i].setFromNull(s[!i]); mw[i] = ms[!i]; break;
                default: MC_LOG("s%d = move(s%d)", i, !i); s[i] = std::move(s[!i]); ms[i] = ms[!i]; ms[!i] = nullptr; break;
            }
            std::set<Dual*> strong, all;
            for (int k = 0; k < 2; k++) { if (ms[k]) strong.insert(ms[k]), all.insert(ms[k]); if (mw[k]) all.insert(mw[k]); }
            for (int k = 0; k < 2; k++) MC_CHECK(s[k].get() == ms[k] && (Dual*) w[k] == mw[k], "handle %d designates the wrong object", k);
            MC_CHECK(Dual::payloads() == (int) strong.size(), "%d payloads alive, %zu objects have strong references", Dual::payloads(), strong.size());
            MC_CHECK(Dual::objects() == (int) all.size(), "%d objects alive, %zu have references", Dual::objects(), all.size());
            for (Dual* p : all) {
                u32 ns = (ms[0] == p) + (ms[1] == p), nw = (mw[0] == p) + (mw[1] == p);
                MC_CHECK(p->getRefCount() == ns && p->getWeakRefCount() == nw, "counts %u/%u, expected %u/%u", p->getRefCount(), p->getWeakRefCount(), ns, nw);
            }
            if (all.size()) mc::nontrivial();
            std::map<Dual*, int> r; r[nullptr] = 0;
            uint64_t h = 1;
            for (Dual* p : {ms[0], ms[1], mw[0], mw[1]}) h = mc::mix(h, r.emplace(p, r.size()).first->second);
            mc::state(h);
        }
    }
    MC_CHECK(Dual::objects() == 0 && Dual::payloads() == 0, "%d objects never destroyed", Dual::objects());
}
// --- Functor
static void functor() {
    long live0 = Tracked::live();
    {
        using F = Functor<int(int)>;
        F v[3];
        int m[3] = {0, 0, 0};
        int next = 0;
        int D = pick(5, 7);
        for (int d = 0; d < D; d++) {
            int i = choose(3), op = choose(5);
            mc::step();
            auto make = [&](int k) -> F { Tracked t{k}; return F{[t](int x) { return t.value() * 100 + x; }}; };
            switch (op) {
                case 0: MC_LOG("v%d = lambda owning an object", i); v[i] = make(++next); m[i] = next; break;
                case 1: MC_LOG("v%d = move(v%d)", i, (i + 1) % 3); v[i] = std::move(v[(i + 1) % 3]); m[i] = m[(i + 1) % 3]; m[(i + 1) % 3] = 0; break;
                case 2: MC_LOG("v%d = {}", i); v[i] = F{}; m[i] = 0; break;
                case 3: { MC_LOG("move construct from v%d, drop", i); F t{std::move(v[i])}; MC_CHECK(t.isValid() == (m[i] != 0) && !v[i].isValid(), "move construction"); m[i] = 0; break; }
                default: { MC_LOG("move construct from v%d and back", i); F t{std::move(v[i])}; v[i] = std::move(t); break; }
            }
            long n = 0;
            for (int k = 0; k < 3; k++) {
                MC_CHECK((bool) v[k] == (m[k] != 0), "functor %d valid=%d", k, (bool) v[k]);
                if (m[k]) { n++; MC_CHECK(v[k](d) == m[k] * 100 + d, "functor %d calls the wrong function", k); }
            }
            MC_CHECK(Tracked::live() - live0 == n, "%ld captured objects alive, the functors hold %ld", Tracked::live() - live0, n);
            if (n) mc::nontrivial();
            mc::state(mc::mix(!!m[0] + 2 * !!m[1] + 4 * !!m[2], 5));
        }
    }
    MC_CHECK(Tracked::live() == live0, "%ld captured objects never destroyed", Tracked::live() - live0);
}
// --- String and HybridString
static void strings() {
    static const char lit[] = "literal";
    std::string backing = "viewed bytes";
    {
        String s[2];
        HybridString h[2];
        std::string ms[2], mh[2];
        bool own[2] = {false, false};
        int D = pick(4, 5);
        for (int d = 0; d < D; d++) {
            int i = choose(2), op = choose(20), j = !i;
            mc::step();
            switch (op) {
                case 0: MC_LOG("s%d = new text", i); s[i] = String{StringView{"abc"}} + StringView{"def"}; ms[i] = "abcdef"; break;
                case 1: MC_LOG("s%d = s%d", i, j); s[i] = s[j]; ms[i] = ms[j]; break;
                case 2: MC_LOG("s%d = move(s%d)", i, j); s[i] = std::move(s[j]); ms[i] = ms[j]; ms[j].clear(); break;
                case 3: { MC_LOG("s%d = s%d (itself)", i, i); String& a = s[i]; s[i] = a; break; }
                case 4: { u32 n = ms[i].size() / 2; MC_LOG("s%d = its own middle", i); s[i] = s[i].subStr(n); ms[i] = ms[i].substr(n); break; }
                case 5: MC_LOG("s%d += s%d", i, i); if (ms[i].size() > 40) break; s[i] += s[i]; ms[i] += ms[i]; break;
                case 6: { MC_LOG("s%d.resize", i); u32 n = ms[i].size(); s[i].resize(n + 2); s[i][n] = 'x'; s[i][n + 1] = 0; ms[i] += std::string("x\0", 2); break; }
                case 7: MC_LOG("s%d.clear()", i); s[i].clear(); ms[i].clear(); break;
                case 8: { MC_LOG("release and adopt s%d", i); u32 n = s[i].numBytes; char* p = s[i].release(); MC_CHECK(!s[i].bytes && !s[i].numBytes, "release left bytes"); s[i] = String::adopt(p, n); break; }
                case 9: MC_LOG("h%d = literal", i); h[i] = lit; mh[i] = lit; own[i] = false; break;
                case 10: MC_LOG("h%d = view", i); h[i] = view(backing); mh[i] = backing; own[i] = false; break;
                case 11: MC_LOG("h%d = move(s%d)", i, i); h[i] = std::move(s[i]); mh[i] = ms[i]; ms[i].clear(); own[i] = true; break;
                case 12: MC_LOG("h%d = h%d", i, j); h[i] = h[j]; mh[i] = mh[j]; own[i] = own[j]; break;
                case 13: MC_LOG("h%d = move(h%d)", i, j); h[i] = std::move(h[j]); mh[i] = mh[j]; own[i] = own[j]; mh[j].clear(); own[j] = false; break;
                case 14: { MC_LOG("h%d = h%d (itself)", i, i); HybridString& a = h[i]; h[i] = a; break; }
                case 15: MC_LOG("s%d = move(h%d)", i, i); s[i] = std::move(h[i]); ms[i] = mh[i]; if (own[i]) mh[i].clear(); own[i] = false; break;
                case 16: { MC_LOG("h%d = s%d with null terminator", i, i); h[i] = s[i].withNullTerminator(); bool has = ms[i].size() && !ms[i].back(); mh[i] = ms[i]; if (!has) mh[i].push_back(0); own[i] = !has; if (has) { h[i] = HybridString{String{h[i].view()}}; own[i] = true; } break; }
                case 17: { MC_LOG("copy of h%d, dropped", i); HybridString c{h[i]}; MC_CHECK(str(c) == mh[i], "copy differs"); break; }
                case 18: { MC_LOG("s%d = h%d's view", i, j); s[i] = h[j].view(); ms[i] = mh[j]; break; }
                default: { MC_LOG("s%d moved to a new string and back", i); String t{std::move(s[i])}; MC_CHECK(s[i].isEmpty(), "moved-from string is not empty"); s[i] = std::move(t); break; }
            }
            uint64_t hs = 1;
            for (int k = 0; k < 2; k++) {
                MC_CHECK(str(s[k]) == ms[k], "s%d is \"%s\", expected \"%s\"", k, esc(str(s[k])).c_str(), esc(ms[k]).c_str());
                MC_CHECK(str(h[k]) == mh[k], "h%d is \"%s\", expected \"%s\"", k, esc(str(h[k])).c_str(), esc(mh[k]).c_str());
                if (mh[k].size()) MC_CHECK((bool) h[k].isOwner == own[k], "h%d owner flag %d", k, h[k].isOwner);
                hs = mc::mix(hs, hstr(ms[k])); hs = mc::mix(hs, hstr(mh[k]) + own[k]);
            }
            if (ms[0].size() + ms[1].size()) mc::nontrivial();
            mc::state(hs);
        }
    }
}
static void scoped() { // PLY_SET_IN_SCOPE restores, nested and with early exits
    long live0 = Tracked::live();
    {
        Tracked v{1};
        int depth = choose(4), exitAt = choose(4);
        struct R { static void go(Tracked& v, int d, int depth, int exitAt, int& calls) {
            if (d == depth) return;
            int before = v.value();
            {
                PLY_SET_IN_SCOPE(v, Tracked{before * 10 + d});
                bool ran = false;
                { PLY_ON_SCOPE_EXIT({ ran = true; calls++; }); MC_CHECK(v.value() == before * 10 + d, "value not set"); if (d != exitAt) go(v, d + 1, depth, exitAt, calls); }
                MC_CHECK(ran, "scope exit did not run");
                MC_CHECK(v.value() == before * 10 + d, "inner scope did not restore");
            }
            MC_CHECK(v.value() == before, "scope did not restore: %d, expected %d", v.value(), before);
        } };
        int calls = 0;
        R::go(v, 0, depth, exitAt, calls);
        MC_CHECK(calls == std::min(depth, exitAt + 1), "%d scope exits ran", calls);
        mc::step(); mc::nontrivial();
    }
    MC_CHECK(Tracked::live() == live0, "leak");
}
MC_SCENARIOS = {
    {"owned", owned, mc::LEAKS, "chains of owning pointers, including handles inside the object they replace"},
    {"optionally-owned", optionally, mc::LEAKS, "owning and borrowing pointers"},
    {"reference", reference, mc::LEAKS, "shared objects referring to each other"},
    {"weak", weak, mc::LEAKS, "strong and weak references"},
    {"functor", functor, mc::LEAKS, "callables that own objects"},
    {"strings", strings, mc::LEAKS, "owning and borrowing strings"},
    {"scoped", scoped, mc::LEAKS, "scoped assignment"},
    MC_END,
};
