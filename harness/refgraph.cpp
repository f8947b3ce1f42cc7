#include "refgraph.h"
namespace refgraph {
static const V NULLV;
const V& deref(const Objs& s, const V& v) { const V* p = &v; for (int i = 0; i < 20 && p->k == K::Ref; i++) { auto it = s.find(p->i); if (it == s.end()) return NULLV; p = &it->second.v; } return p->k == K::Ref ? NULLV : *p; }
static const V* entry(const Objs& s, const V& d, const std::string& k) { if (d.k != K::Dict) return nullptr; auto p = d.get(k); if (!p) return nullptr; auto& v = deref(s, *p); return v.k == K::Null ? nullptr : p; }
static std::string typeOf(const Objs& s, const V& d) { auto t = entry(s, d, "Type"); if (!t) return ""; auto& v = deref(s, *t); return v.k == K::Name ? v.s : ""; }
static void walk(const Objs& s, const V& node, std::vector<int64_t>& out, unsigned depth) {
    if (depth > 40 || node.k != K::Ref) return; auto& n = deref(s, node); auto k = entry(s, n, "Kids"); if (!k) { out.push_back(node.i); return; }
    for (auto& x : deref(s, *k).a) walk(s, x, out, depth + 1);
}
std::vector<int64_t> pages(const Objs& s, int64_t root) { std::vector<int64_t> r; auto it = s.find(root); if (it == s.end()) return r; auto p = entry(s, it->second.v, "Pages"); if (p) walk(s, *p, r, 0); return r; }
const V* inherited(const Objs& s, int64_t page, const std::string& key, int64_t* holder) {
    auto it = s.find(page); for (unsigned i = 0; i < 60 && it != s.end(); i++) { if (auto p = entry(s, it->second.v, key)) { if (holder) *holder = it->first; return p; } auto q = it->second.v.get("Parent"); if (!q || q->k != K::Ref) return nullptr; it = s.find(q->i); } return nullptr;
}
static const char* INH[] = { "Resources", "MediaBox", "CropBox", "Rotate" };
std::string Iso::pair(int64_t x, int64_t y, const std::string& path) {
    auto i = ab.find(x), j = ba.find(y);
    if (i != ab.end() || j != ba.end()) { if (i == ab.end() || i->second != y) return path + ": object " + std::to_string(x) + " corresponds to different objects (" + std::to_string(y) + (i == ab.end() ? ", which stands for " + std::to_string(j->second) : " and " + std::to_string(i->second)) + ")"; return ""; }
    ab[x] = y; ba[y] = x; todo.push_back({ x, y }); paths.push_back(path); return "";
}
std::string Iso::value(const V& x, const V& y, const std::string& path, unsigned depth) {
    if (depth > 300) return "";
    if (x.k == K::Ref || y.k == K::Ref) {
        bool mx = x.k == K::Ref && !a.count(x.i), my = y.k == K::Ref && !b.count(y.i);
        if (mx || my) { if ((mx || x.k == K::Null) && (my || y.k == K::Null)) return ""; return path + ": " + (mx ? "missing object became " + show(deref(b, y)) : show(deref(a, x)) + " became a missing object"); }
        if (x.k != y.k) return path + ": " + show(x) + " became " + show(y);
        return pair(x.i, y.i, path);
    }
    if (x.isNum() && y.isNum()) return std::fabs(x.num() - y.num()) <= tol * std::max(1.0, std::fabs(x.num())) ? "" : path + ": " + show(x) + " became " + show(y);
    if (x.k != y.k) return path + ": " + show(x) + " became " + show(y);
    if (x.k == K::Arr) { if (x.a.size() != y.a.size()) return path + ": " + std::to_string(x.a.size()) + " elements became " + std::to_string(y.a.size()); for (size_t i = 0; i < x.a.size(); i++) { auto r = value(x.a[i], y.a[i], path + "[" + std::to_string(i) + "]", depth + 1); if (!r.empty()) return r; } return ""; }
    if (x.k == K::Dict) {
        std::set<std::string> keys; for (auto& e : x.m) keys.insert(e.first); for (auto& e : y.m) keys.insert(e.first);
        for (auto& k : keys) { auto p = x.get(k), q = y.get(k); auto r = value(p ? *p : NULLV, q ? *q : NULLV, path + "/" + k, depth + 1); if (!r.empty()) return r; }
        return "";
    }
    auto d = diff(y, x); return d.empty() ? "" : path + ": " + d;
}
std::string Iso::body(int64_t x, int64_t y, const std::string& path) {
    auto& sx = a.at(x); auto& sy = b.at(y); objects++;
    if (sx.hasStream != sy.hasStream) return path + ": stream " + (sx.hasStream ? "lost" : "appeared");
    V vx = sx.v, vy = sy.v; std::string tx = typeOf(a, vx), ty = typeOf(b, vy);
    if (tx == "Pages" && ty == "Pages") return "";
    if ((tx == "Outlines" && ty == "Outlines") || (tx == "Catalog" && ty == "Catalog")) return "";
    if (vx.k == K::Dict && vx.get("Title") && vx.get("Parent")) return "";
    if (tx == "Page" && ty == "Page") {
        // a page taken out of the tree since keeps only its own attributes
        bool removed = live && !live->count(y); vx.m.erase("Parent"); vy.m.erase("Parent");
        for (auto k : INH) { if (removed && !(vx.get(k) && vy.get(k))) { vx.m.erase(k); vy.m.erase(k); continue; } auto p = inherited(a, x, k), q = inherited(b, y, k); V ex = p ? *p : V(), ey = q ? *q : V(); std::string key = k;
            if (key == "Rotate") { V rx = deref(a, ex), ry = deref(b, ey); if (rx.k == K::Null) rx = V::integer(0); if (ry.k == K::Null) ry = V::integer(0); ex = rx; ey = ry; }
            if (key == "CropBox") { if (deref(a, ex).k == K::Null && (p = inherited(a, x, "MediaBox"))) ex = *p; if (deref(b, ey).k == K::Null && (q = inherited(b, y, "MediaBox"))) ey = *q; ex = deref(a, ex); ey = deref(b, ey); }
            if (key == "Resources") { V rx = deref(a, ex), ry = deref(b, ey); if (rx.k == K::Null && ry.k == K::Dict && ry.m.empty()) { ex = ey = V(); } }
            vx.m.erase(k); vy.m.erase(k);
            // an inherited value may be referred to or repeated
            if (ex.k == K::Ref && ey.k == K::Ref) { auto r = value(ex, ey, path + "/" + k); if (!r.empty()) return r; } else { auto r = value(deref(a, ex), deref(b, ey), path + "/" + k); if (!r.empty()) return r; } }
    }
    if (sx.hasStream) { streams++; for (auto k : { "Length", "Filter", "DecodeParms" }) { vx.m.erase(k); vy.m.erase(k); } if (sx.data != sy.data) return path + ": data of the stream changed from " + pbt::show(sx.data, 60) + " to " + pbt::show(sy.data, 60); }
    vx.m.erase("ModDate"); vy.m.erase("ModDate"); // saving updates it
    return value(vx, vy, path);
}
std::string Iso::drain() { while (!todo.empty()) { auto t = todo.back(); auto p = paths.back(); todo.pop_back(); paths.pop_back(); auto r = body(t[0], t[1], p); if (!r.empty()) return r; } return ""; }
std::string Iso::object(int64_t x, int64_t y, const std::string& path) { auto r = pair(x, y, path); return r.empty() ? drain() : r; }
std::string Iso::page(int64_t x, int64_t y, const std::string& path) { return object(x, y, path); }
Objs ofStrict(const Doc& d) { return refdoc::snap(d); }
static std::string str(const Objs& s, const V& d, const char* k) { auto p = entry(s, d, k); if (!p) return "?"; auto& v = deref(s, *p); return v.k == K::Str ? v.s : "?"; }
static std::string level(const Objs& s, int64_t parent, std::string& err, std::set<int64_t>& seen, unsigned depth) {
    auto& d = s.at(parent).v; auto f = entry(s, d, "First"), l = entry(s, d, "Last"); if (!f && !l) return ""; auto id = [](int64_t n) { return "outline item " + std::to_string(n); };
    if (!f || !l || f->k != K::Ref || l->k != K::Ref) { err = id(parent) + " has only one of First and Last"; return ""; } if (depth > 200) { err = "too deep"; return ""; }
    std::string r; int64_t cur = f->i, prev = 0; while (true) {
        if (!seen.insert(cur).second) { err = id(cur) + " is found twice"; return ""; } if (!s.count(cur)) { err = id(cur) + " is missing"; return ""; } auto& o = s.at(cur).v;
        auto p = o.get("Parent"); if (!p || p->k != K::Ref || p->i != parent) { err = id(cur) + ": Parent is " + (p ? show(*p) : "absent") + ", not " + std::to_string(parent); return ""; }
        auto v = entry(s, o, "Prev"); if (prev ? !v || v->k != K::Ref || v->i != prev : v != nullptr) { err = id(cur) + ": Prev is " + (v ? show(*v) : "absent") + ", not " + std::to_string(prev); return ""; }
        r += "{" + str(s, o, "Title"); std::string c = level(s, cur, err, seen, depth + 1); if (!err.empty()) return ""; r += c + "}";
        auto n = entry(s, o, "Next"); if (!n) break; if (n->k != K::Ref) { err = id(cur) + ": Next is not a reference"; return ""; } prev = cur; cur = n->i;
    }
    if (l->i != cur) { err = id(parent) + ": Last is " + std::to_string(l->i) + ", not " + std::to_string(cur); return ""; } return r;
}
std::string outline(const Objs& s, int64_t root, std::string& err) { auto it = s.find(root); if (it == s.end()) return ""; auto o = entry(s, it->second.v, "Outlines"); if (!o) return ""; if (o->k != K::Ref) { err = "outlines are direct"; return ""; } std::set<int64_t> seen; return level(s, o->i, err, seen, 0); }
}
