// Pylon documents as plain values, and an independent reader and writer of the language.
#pragma once
#include "common.h"
#include <pylon/Core.h>
#include <pylon/Node.h>
#include <pylon/Parse.h>
#include <pylon/Write.h>
struct Doc {
    int kind = 0; // 0 text, 1 array, 2 object
    std::string text;
    std::vector<std::pair<std::string, Doc>> items;
    size_t at = 0;
    bool same(const Doc& o, bool places) const {
        if (kind != o.kind || text != o.text || items.size() != o.items.size() || (places && at != o.at)) return false;
        for (size_t i = 0; i < items.size(); i++) if (items[i].first != o.items[i].first || !items[i].second.same(o.items[i].second, places)) return false;
        return true;
    }
    std::string show(bool places = false) const {
        std::string s = kind == 0 ? esc(text) : kind == 1 ? "[" : "{";
        if (places) s += "@" + std::to_string(at);
        for (size_t i = 0; i < items.size(); i++) s += (i ? ", " : "") + (kind == 2 ? esc(items[i].first) + ": " : std::string()) + items[i].second.show(places);
        return s + (kind == 1 ? "]" : kind == 2 ? "}" : "");
    }
};
static inline Doc fromNode(const pylon::Node* n) {
    Doc d; d.at = (size_t) n->fileOfs;
    if (n->isText()) { d.kind = 0; d.text = str(n->text()); }
    else if (n->isArray()) { d.kind = 1; for (const pylon::Node* k : n->arrayView()) d.items.push_back({"", fromNode(k)}); }
    else if (n->isObject()) { d.kind = 2; for (auto& i : n->object().items) d.items.push_back({str(i.key.view()), fromNode(i.value)}); }
    else MC_CHECK(false, "an invalid node is part of a document");
    return d;
}
static inline Owned<pylon::Node> toNode(const Doc& d) {
    using pylon::Node;
    if (d.kind == 0) return Node::createText(String{view(d.text)});
    if (d.kind == 1) { auto n = Node::createArray(); for (auto& k : d.items) n->array().append(toNode(k.second)); return n; }
    auto n = Node::createObject(); for (auto& k : d.items) n->set(String{view(k.first)}, toNode(k.second)); return n;
}
