// C18: name trees and named destinations behave as a sorted map.
#include "refdoc.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "a tree holds at least three keys and was changed, or was loaded with nested nodes";
    pbt::g_assumptions = "keys are valid text strings stored in PDFDocEncoding if possible, otherwise in UTF-16; no other producer stores the same key twice\nloaded trees are sorted by the bytes of their keys and have right limits\nkeys are order by the bytes they have in the document, as the standard says";
} } init;
typedef std::map<std::string, V> Map;   // stored bytes -> value (indirect values are resolved)
static const char* TREES[] = { "Dests", "EmbeddedFiles", "JavaScript", "Vf" };
static std::string genKey(pbt::Src& g, const Map& m) {
    if (!m.empty() && g.chance(1, 3)) { auto it = m.begin(); std::advance(it, g.draw(m.size() - 1)); if (it->first.substr(0, 2) == "\xFE\xFF") return it->first; auto t = bytesText(it->first); switch (g.draw(3)) { case 0: return it->first; case 1: return textBytes(t + g.pick<const char*>({ " ", "a", "0", "~" })); case 2: { auto s = it->first; if (!s.empty() && s.back() < 'z' && s.back() >= ' ') s.back()++; return textBytes(bytesText(s)); } default: { auto s = it->first; if (!s.empty() && (unsigned char)s.back() < 0x80) s.pop_back(); return textBytes(bytesText(s)); } } }
    switch (g.draw(4)) { case 0: return std::to_string(g.draw(99)); case 1: return "chapter." + std::to_string(g.draw(500)); case 2: return textBytes(utf8(genText(g, g.size(6), 1))); default: return textBytes(utf8(genText(g, g.size(6), (int)g.draw(3)))); }
}
static PdfString key(const std::string& bytes, pbt::Src& g) { if (g.coin()) return PdfString(bytesText(bytes)); return strOf(bytes, g.coin()); }
static V genVal(pbt::Src& g, int64_t tag) { switch (g.draw(4)) { case 0: return V::integer(tag); case 1: return V::arr({ V::integer(tag), V::name("Fit") }); case 2: return V::dict({ { "T", V::integer(tag) } }); case 3: return V::str("s" + std::to_string(tag)); default: return V::arr({}); } }
static bool same(const V& a, const V& b) { return diff(a, b, DiffOpt()).empty(); }
static void checkTree(PdfNameTree* t, const std::string& name, const Map& m, pbt::Src& g) {
    if (!t) { CHECK("tree", m.empty(), "no name trees"); return; }
    for (auto& x : m) { auto v = t->GetValue(PdfName(name), key(x.first, g)); CHECK("found", v != nullptr, name << ": key " << pbt::show(x.first) << " is not found among " << m.size()); auto got = fromObj(*v); CHECK("value", same(got, x.second), name << ": key " << pbt::show(x.first) << " has " << show(got) << " expected " << show(x.second)); CHECK("has", t->HasValue(PdfName(name), key(x.first, g)), name << ": HasValue of " << pbt::show(x.first)); }
    for (int i = 0; i < 4; i++) { auto k = genKey(g, m); if (m.count(k)) continue; CHECK("absent", !t->GetValue(PdfName(name), key(k, g)) && !t->HasValue(PdfName(name), key(k, g)), name << ": key " << pbt::show(k) << " is found but was not added"); }
    PdfDictionary d; d.AddKey("old", PdfObject((int64_t)1)); t->ToDictionary(PdfName(name), d); std::map<std::string, const V*> want; for (auto& x : m) want[x.first.substr(0, 2) == "\xFE\xFF" ? x.first : std::string(PdfName(bytesText(x.first)).GetRawData())] = &x.second; size_t n = 0;
    for (auto& x : d) { n++; auto it = want.find(std::string(x.first.GetRawData())); CHECK("enumerate", it != want.end(), name << ": enumerated key " << pbt::show(x.first.GetRawData())); const PdfObject* o = &x.second; if (o->IsReference()) o = t->GetDocument().GetObjects().GetObject(o->GetReference()); CHECK("enumerate", o && same(fromObj(*o), *it->second), name << ": enumerated value of " << pbt::show(x.first.GetRawData())); } CHECK_EQ("enumerate-count", n, want.size(), name);
}
// ---- structure in the saved file -------------------------------------------------
static void walk(const Doc& d, const V& ref, bool root, std::vector<std::pair<std::string, V>>& out, std::set<int64_t>& seen, const std::string& name) {
    if (ref.k == K::Ref) CHECK("node-twice", seen.insert(ref.i).second, name << ": node " << ref.i << " is found twice"); else CHECK("node-direct", root, name << ": direct child node"); auto& o = resolve(d, ref); CHECK("node", o.k == K::Dict, name << ": node is " << show(o)); size_t from = out.size(); auto kids = o.get("Kids"), names = o.get("Names"), lim = o.get("Limits"); CHECK("node-kind", !(kids && names), name << ": node with Kids and Names");
    if (kids) for (auto& k : resolve(d, *kids).a) walk(d, k, false, out, seen, name); else if (names) { auto& a = resolve(d, *names).a; CHECK("names-pairs", a.size() % 2 == 0, name << ": odd Names"); for (size_t i = 0; i < a.size(); i += 2) { auto& k = resolve(d, a[i]); CHECK("names-key", k.k == K::Str, name << ": key " << show(k)); if (!out.empty()) CHECK("sorted", out.back().first < k.s, name << ": " << pbt::show(out.back().first) << " is before " << pbt::show(k.s)); out.emplace_back(k.s, resolve(d, a[i + 1])); } } else CHECK("node-kind", root, name << ": node without Kids and Names");
    if (root) { CHECK("root-limits", !lim, name << ": the root has Limits"); return; } CHECK("node-empty", out.size() > from, name << ": empty node"); CHECK("limits", lim, name << ": node without Limits"); auto& l = resolve(d, *lim); CHECK("limits", l.k == K::Arr && l.a.size() == 2 && resolve(d, l.a[0]).s == out[from].first && resolve(d, l.a[1]).s == out.back().first, name << ": Limits " << show(l) << " of a node from " << pbt::show(out[from].first) << " to " << pbt::show(out.back().first));
}
static void checkFile(const std::string& bytes, const std::map<std::string, Map>& model) {
    auto r = readStrict(bytes); auto& cat = resolve(r.doc, *r.doc.trailer.get("Root")); auto ns = cat.get("Names"); for (auto& t : model) { if (t.second.empty()) continue; CHECK("file-names", ns, "no Names in the catalog"); auto n = resolve(r.doc, *ns).get(t.first); CHECK("file-tree", n, "no tree " << t.first); std::vector<std::pair<std::string, V>> out; std::set<int64_t> seen; walk(r.doc, *n, true, out, seen, t.first); CHECK_EQ("file-size", out.size(), t.second.size(), t.first); size_t i = 0; for (auto& x : t.second) { CHECK_EQ("file-key", pbt::show(out[i].first), pbt::show(x.first), t.first << " at " << i); CHECK("file-value", same(out[i].second, x.second), t.first << ": key " << pbt::show(x.first) << " has " << show(out[i].second) << " expected " << show(x.second)); i++; } }
}
// ---- trees of another producer ---------------------------------------------------
struct Gen { pbt::Src& g; M m; int64_t next = 1; unsigned nodes = 0; Gen(pbt::Src& g) : g(g) {}
    V ind(V v, unsigned den) { if (!g.chance(1, den)) return v; int64_t n = next++; m.d.objs[n].v = v; return V::refTo(n); }
    V node(std::vector<std::pair<std::string, V>>& xs, size_t from, size_t to, bool root, unsigned depth) {
        nodes++; V d = V::dict(); if (!root) d.m["Limits"] = ind(V::arr({ V::str(xs[from].first, g.coin()), V::str(xs[to - 1].first, g.coin()) }), 10); size_t n = to - from;
        if (n >= 2 && depth < 5 && (n > 60 || g.chance(depth < 2 ? 3 : 1, 4))) { std::vector<V> kids; size_t parts = 1 + g.draw(std::min<size_t>(n - 1, 5)), at = from; for (size_t i = 0; i < parts && at < to; i++) { size_t end = i + 1 == parts ? to : std::min(to - (parts - 1 - i), at + 1 + g.draw(2 * n / parts)); if (end <= at) continue; V c = node(xs, at, end, false, depth + 1); int64_t num = next++; m.d.objs[num].v = c; kids.push_back(V::refTo(num)); at = end; } d.m["Kids"] = ind(V::arr(kids), 8); }
        else if (n || !root || !g.chance(1, 3)) { std::vector<V> a; for (size_t i = from; i < to; i++) { a.push_back(V::str(xs[i].first, g.chance(1, 4))); a.push_back(ind(xs[i].second, 3)); } d.m["Names"] = ind(V::arr(a), 8); } else d.m["Kids"] = V::arr({});
        return d;
    }
};
static void edit(pbt::Src& g, std::unique_ptr<PdfMemDocument>& doc, std::map<std::string, Map>& model, unsigned ops, std::string base, bool nested) {
    std::deque<std::string> files; unsigned changes = 0; int64_t tag = 1000; auto& pg = doc->GetPages().GetCount() ? doc->GetPages().GetPageAt(0) : doc->GetPages().CreatePage(PdfRect(0, 0, 9, 9)); PdfReference page = pg.GetObject().GetIndirectReference(); bool named = false;
    auto tree = [&]() -> PdfNameTree* { if (!doc->GetNames()) { PdfDestination d(doc->GetPages().GetPage(page)); doc->AddNamedDestination(d, PdfString("first")); model["Dests"]["first"] = fromObj(d.GetObject()); named = true; } return doc->GetNames(); };
    for (unsigned o = 0; o < ops; o++) {
        std::string t = TREES[g.weighted({ 3, 1, 1, 1 })]; auto& m = model[t];
        switch (g.weighted({ 6, 2, 2, 2, 1 })) {
            case 0: { unsigned k = g.chance(1, 12) ? 40 + (unsigned)g.draw(120) : 1; auto* nt = tree(); for (unsigned i = 0; i < k; i++) { auto b = k > 1 && g.chance(3, 4) ? "k" + std::to_string(g.draw(2000)) : genKey(g, m); V v = genVal(g, tag++); PdfObject ob = toObj(v); if (g.chance(1, 3)) { auto& x = doc->GetObjects().CreateObject(ob); nt->AddValue(PdfName(t), key(b, g), PdfObject(x.GetIndirectReference())); } else nt->AddValue(PdfName(t), key(b, g), ob); if (k == 1) g.trace("add ", t, " ", pbt::show(b), m.count(b) ? " again" : ""); m[b] = v; changes++; } if (k > 1) { g.trace("add ", k, " keys to ", t); g.label("many keys"); } break; }
            case 1: { auto b = genKey(g, m); PdfDestination d(doc->GetPages().GetPage(page), (double)tag, 2, 1); doc->AddNamedDestination(d, key(b, g)); model["Dests"][b] = fromObj(d.GetObject()); changes++; named = true; g.trace("destination ", pbt::show(b)); tag++; break; }
            case 2: { auto b = genKey(g, m); auto* nt = doc->GetNames(); auto v = nt ? nt->GetValue(PdfName(t), key(b, g)) : nullptr; auto it = m.find(b); CHECK("lookup", (v != nullptr) == (it != m.end()), t << ": key " << pbt::show(b) << (v ? " found, not added" : " not found")); if (v) CHECK("lookup", same(fromObj(*v), it->second), t << ": key " << pbt::show(b)); if (t == "Dests" && it != m.end() && it->second.k == K::Arr && it->second.a.size() == 5) { PdfObject& o = doc->GetObjects().CreateObject(PdfObject(key(b, g))); auto d = PdfDestination::Create(o); CHECK("named-destination", d->GetType() == PdfDestinationType::XYZ && d->GetLeft() == it->second.a[2].num() && d->GetPage() && d->GetPage()->GetObject().GetIndirectReference() == page, "destination " << pbt::show(b)); g.label("named destination resolved"); } break; }
            case 3: checkTree(doc->GetNames(), t, m, g); break;
            default: { bool upd = !base.empty() && g.coin(); std::string out; if (upd) { out = base; StringStreamDevice dev(out); doc->SaveUpdate(dev, PdfSaveOptions::NoModifyDateUpdate); } else out = save(*doc, genSave(g)); g.trace(upd ? "update" : "save", " and load"); checkFile(out, model); base = out; doc.reset(); files.push_back(out); doc = loadMm(files.back(), (unsigned)g.draw(2)); g.label(upd ? "updated and reloaded" : "saved and reloaded"); break; }
        }
    }
    for (auto& t : model) checkTree(doc->GetNames(), t.first, t.second, g); std::string out = save(*doc, genSave(g)); checkFile(out, model); auto again = loadMm(out, (unsigned)g.draw(2)); for (auto& t : model) checkTree(again->GetNames(), t.first, t.second, g);
    bool three = false; for (auto& t : model) if (t.second.size() >= 3) three = true; if (nested || (three && changes)) g.nontrivial(); doc.reset();
}
PROP(C18, loaded, 7000, 300000, 20) {
    Gen x(g); int64_t cat = x.next++, pagesN = x.next++, pageN = x.next++; x.m.d.objs[pagesN].v = V::dict({ { "Type", V::name("Pages") }, { "Kids", V::arr({ V::refTo(pageN) }) }, { "Count", V::integer(1) } }); x.m.d.objs[pageN].v = V::dict({ { "Type", V::name("Page") }, { "Parent", V::refTo(pagesN) }, { "MediaBox", V::arr({ V::integer(0), V::integer(0), V::integer(9), V::integer(9) }) } });
    std::map<std::string, Map> model; V names = V::dict(); int64_t tag = 1; for (auto t : TREES) { if (g.chance(1, 2)) continue; Map m; unsigned k = g.chance(1, 10) ? (unsigned)g.draw(200) : g.size(20); for (unsigned i = 0; i < k; i++) m[genKey(g, m)] = genVal(g, tag++); std::vector<std::pair<std::string, V>> xs(m.begin(), m.end()); names.m[t] = x.ind(x.node(xs, 0, xs.size(), true, 0), 2); model[t] = m; }
    bool nested = x.nodes > model.size(); x.m.d.objs[cat].v = V::dict({ { "Type", V::name("Catalog") }, { "Pages", V::refTo(pagesN) }, { "Names", x.ind(names, 2) } }); x.m.d.trailer = V::dict({ { "Root", V::refTo(cat) } }); x.m.d.version = "1.7"; Layout l; l.xref = (int)g.draw(2); l.objStreams = l.xref && g.coin(); std::string bytes = write(g, x.m, l, g.coin()); g.trace(str(x.m)); if (nested) g.label("nested nodes");
    auto doc = loadMm(bytes, (unsigned)g.draw(2)); for (auto& t : model) checkTree(doc->GetNames(), t.first, t.second, g); edit(g, doc, model, g.size(12), bytes, nested);
}
PROP(C18, built, 5000, 200000, 20) { auto doc = std::make_unique<PdfMemDocument>(); std::map<std::string, Map> model; edit(g, doc, model, 2 + g.size(18), "", false); }
PROP(C18, large, 6, 100, 90) {   // enough keys for several levels
    auto doc = std::make_unique<PdfMemDocument>(); auto& p = doc->GetPages().CreatePage(PdfRect(0, 0, 9, 9)); PdfDestination d(p); doc->AddNamedDestination(d, PdfString("0")); auto* nt = doc->GetNames(); std::map<std::string, Map> model; auto& m = model["Dests"]; m["0"] = fromObj(d.GetObject()); unsigned n = 4000 + (unsigned)g.draw(3000), how = (unsigned)g.draw(3);
    for (unsigned i = 0; i < n; i++) { unsigned k = how == 0 ? i : how == 1 ? n - i : how == 2 ? (unsigned)g.draw(100000) : (unsigned)(i * 2654435761u); char b[20]; snprintf(b, sizeof b, how == 3 ? "%u" : "%06u", k); nt->AddValue(PdfName("Dests"), PdfString(b), PdfObject((int64_t)i)); m[b] = V::integer(i); } g.nontrivial(); g.label(how == 0 ? "ascending keys" : how == 1 ? "descending keys" : "unordered keys");
    checkTree(nt, "Dests", m, g); std::string out = save(*doc); checkFile(out, model); auto again = loadMm(out, 0); checkTree(again->GetNames(), "Dests", m, g);
}
