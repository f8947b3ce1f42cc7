// C15: the page tree is an ordered list of pages.
#include "refdoc.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the tree has nested nodes or at least three editing operations changed it";
    pbt::g_assumptions = "page trees are well formed: Count and Parent are right, each page appears once\nTrimBox, BleedBox and ArtBox are only on pages (they are not inheritable)\na new page has the MediaBox asked for and inherits the rest from the node it is put in (inherited resources of a new page are not judged)\nafter a move to index i the page is at index i";
} } init;
typedef std::array<double, 4> Box;   // left bottom right top
static std::string bstr(const Box& b) { std::ostringstream s; s << "[" << b[0] << " " << b[1] << " " << b[2] << " " << b[3] << "]"; return s.str(); }
static bool same(const Box& a, const Box& b) { for (int i = 0; i < 4; i++) if (std::fabs(a[i] - b[i]) > 2e-6 * std::max(1.0, std::fabs(b[i]))) return false; return true; }
struct Attr { std::map<std::string, Box> box; bool hasRot = false; int rot = 0; int64_t res = -1; };   // res: tag of the resources, -1 none, -2 not judged
struct P { PdfReference ref; Attr a; PdfPage* held = nullptr; };
static const char* BOXES[] = { "MediaBox", "CropBox", "TrimBox", "BleedBox", "ArtBox" };
static Box effective(const Attr& a, const std::string& name) {
    auto it = a.box.find(name); if (it != a.box.end()) return it->second;
    if (name == "MediaBox") return Box{ 0, 0, 0, 0 };
    return effective(a, name == "CropBox" ? "MediaBox" : "CropBox");
}
static Box boxOf(const PdfRect& r) { return { r.GetLeft(), r.GetBottom(), r.GetRight(), r.GetTop() }; }
static Box norm(double a, double b, double c, double d) { return { std::min(a, c), std::min(b, d), std::max(a, c), std::max(b, d) }; }
// ---- generated trees -------------------------------------------------------------
struct TreeGen {
    pbt::Src& g; M m; std::vector<int64_t> pool; size_t at = 0; int64_t tag = 100; unsigned budget; unsigned nodes = 0; std::vector<int64_t> order; std::map<int64_t, Attr> attrs;
    TreeGen(pbt::Src& g, unsigned pages) : g(g), budget(pages) { for (int64_t i = 1; i <= 150; i++) pool.push_back(i); if (g.coin()) for (size_t i = pool.size() - 1; i > 0; i--) std::swap(pool[i], pool[g.draw(i)]); }
    int64_t num() { return pool[at++]; }
    std::map<std::string, int64_t> shared;   // equal values can share an object
    V ind(V v, unsigned den) { if (!g.chance(1, den) || at > 120) return v; std::string key = v.k == K::Int || v.k == K::Real ? show(v) : ""; if (!key.empty() && shared.count(key) && g.chance(3, 4)) { g.label("indirect value with several users"); return V::refTo(shared[key]); } int64_t n = num(); m.d.objs[n].v = v; if (!key.empty()) shared[key] = n; return V::refTo(n); }
    V coord(double& d) { if (g.coin()) { int64_t i = g.range(-50, 900); d = (double)i; return ind(V::integer(i), 12); } d = (double)g.range(-5000, 90000) / 100; return ind(V::real(d), 12); }
    V box(Box& b) { double c[4]; std::vector<V> a; for (int i = 0; i < 4; i++) a.push_back(coord(c[i])); b = norm(c[0], c[1], c[2], c[3]); return ind(V::arr(a), 5); }
    void inheritable(V& d, Attr& a, unsigned den) {
        if (g.chance(1, den)) { Box b; d.m["MediaBox"] = box(b); a.box["MediaBox"] = b; }
        if (g.chance(1, den + 1)) { Box b; d.m["CropBox"] = box(b); a.box["CropBox"] = b; }
        if (g.chance(1, den)) { int r = 90 * (int)g.range(-4, 8); d.m["Rotate"] = ind(V::integer(r), 6); a.hasRot = true; a.rot = r; }
        if (g.chance(1, den)) { a.res = tag++; d.m["Resources"] = ind(V::dict({ { "VfTag", V::integer(a.res) }, { "ProcSet", V::arr() } }), 2); }
        if (g.chance(1, 12)) { for (auto k : { "MediaBox", "CropBox", "Rotate", "Resources" }) if (!d.get(k) && g.chance(1, 3)) { d.m[k] = V::null(); g.label("null entry for an inheritable attribute"); } }
    }
    int64_t page(int64_t parent, Attr a, bool alone) {
        int64_t n = num(); budget--; V d = V::dict({ { "Type", V::name("Page") }, { "VfPage", V::integer(n) } }); if (parent) d.m["Parent"] = V::refTo(parent); inheritable(d, a, 4); (void)alone;
        if (!a.box.count("MediaBox")) { Box b; d.m["MediaBox"] = box(b); a.box["MediaBox"] = b; }
        for (auto k : { "TrimBox", "BleedBox", "ArtBox" }) if (g.chance(1, 6)) { Box b; d.m[k] = box(b); a.box[k] = b; }
        if (g.coin()) { int64_t c = num(); m.d.objs[c].v = V::dict(); setStream(g, m, c, "q Q\n", false); d.m["Contents"] = V::refTo(c); }
        m.d.objs[n].v = d; order.push_back(n); attrs[n] = a; return n;
    }
    std::pair<int64_t, unsigned> node(int64_t parent, Attr a, unsigned depth) {
        int64_t n = num(); nodes++; V d = V::dict({ { "Type", V::name("Pages") } }); if (parent) d.m["Parent"] = V::refTo(parent); inheritable(d, a, parent ? 4 : 3); std::vector<V> kids; unsigned cnt = 0, k = depth ? g.size(5) : g.size(6);
        for (unsigned i = 0; i < k && at < 100; i++) { if (depth < 5 && g.chance(depth < 2 ? 2 : 1, 5)) { auto c = node(n, a, depth + 1); kids.push_back(V::refTo(c.first)); cnt += c.second; } else if (budget) { kids.push_back(V::refTo(page(n, a, k == 1))); cnt++; } }
        if (parent && !cnt) g.label("node without pages");
        d.m["Kids"] = ind(V::arr(kids), 5); d.m["Count"] = ind(V::integer(cnt), 4); m.d.objs[n].v = d; return { n, cnt };
    }
    void run() { int64_t cat = num(); auto r = node(0, {}, 0); m.d.objs[cat].v = V::dict({ { "Type", V::name("Catalog") }, { "Pages", V::refTo(r.first) } }); m.d.trailer = V::dict({ { "Root", V::refTo(cat) } }); m.d.version = "1.7"; }
};
// ---- checks ----------------------------------------------------------------------
static void checkPage(PdfMemDocument& doc, unsigned i, P& p, bool hold) {
    PdfPage& q = doc.GetPages().GetPageAt(i); std::string id = "page " + std::to_string(i) + " (object " + p.ref.ToString() + ")";
    CHECK_EQ("order", q.GetObject().GetIndirectReference().ToString(), p.ref.ToString(), "at index " << i);
    CHECK_EQ("index", q.GetIndex(), i, "GetIndex of " << id); CHECK_EQ("number", q.GetPageNumber(), i + 1, "GetPageNumber of " << id);
    if (p.held) CHECK("identity", p.held == &q, "the page object of " << id << " changed"); if (hold) p.held = &q;
    Box got[5] = { boxOf(q.GetMediaBox()), boxOf(q.GetCropBox()), boxOf(q.GetTrimBox()), boxOf(q.GetBleedBox()), boxOf(q.GetArtBox()) };
    for (int k = 0; k < 5; k++) CHECK(std::string("box-") + BOXES[k], same(got[k], effective(p.a, BOXES[k])), BOXES[k] << " of " << id << " is " << bstr(got[k]) << " expected " << bstr(effective(p.a, BOXES[k])));
    CHECK("rect", same(boxOf(q.GetRect()), got[0]), "GetRect of " << id);
    CHECK_EQ("rotation", q.GetRotationRaw(), p.a.hasRot ? p.a.rot : 0, "of " << id);
    double t = 0; bool has = q.HasRotation(t); int w = ((p.a.hasRot ? p.a.rot : 0) % 360 + 360) % 360; CHECK_EQ("has-rotation", has, w != 0, "of " << id << " with /Rotate " << p.a.rot); double deg = std::fmod(-t * 180 / 3.14159265358979323846 + 720, 360.0); CHECK("has-rotation", !has || std::fabs(deg - w) < 1e-6 || std::fabs(deg - 360 - w) < 1e-6, "angle " << t << " of " << id << " with /Rotate " << p.a.rot);
    if (p.a.res != -2) { auto* r = q.GetResources(); if (p.a.res == -1) CHECK("resources", !r, id << " has resources, none expected"); else { CHECK("resources", r != nullptr, id << " has no resources, expected those tagged " << p.a.res); auto* v = r->GetDictionary().FindKey("VfTag"); CHECK("resources", v && v->IsNumber() && v->GetNumber() == p.a.res, id << " has the resources tagged " << (v && v->IsNumber() ? v->GetNumber() : -1) << " expected " << p.a.res); } }
}
static void checkAll(PdfMemDocument& doc, std::vector<P>& model, pbt::Src& g) {
    CHECK_EQ("count", doc.GetPages().GetCount(), model.size(), "pages");
    bool hold = g.coin(), back = g.coin(); for (unsigned k = 0; k < model.size(); k++) { unsigned i = back ? (unsigned)model.size() - 1 - k : k; checkPage(doc, i, model[i], hold); }
    try { doc.GetPages().GetPageAt((unsigned)model.size()); CHECK("range", false, "GetPageAt accepts the number of pages"); } catch (PdfError& e) { CHECK("range", e.GetError() == PdfErrorCode::PageNotFound, "GetPageAt out of range raises " << (int)e.GetError()); }
}
// the tree as an independent reader sees it in a saved file
struct Leaf { int64_t num; Attr a; };
static void walk(const Doc& d, const V& ref, Attr a, int64_t parent, std::vector<Leaf>& out, std::set<int64_t>& seen, int64_t& count) {
    CHECK("tree-kid", ref.k == K::Ref && d.objs.count(ref.i), "kid " << show(ref) << " of the saved tree"); CHECK("tree-twice", seen.insert(ref.i).second, "object " << ref.i << " is twice in the saved tree"); const V& v = d.objs.at(ref.i).v; auto type = v.get("Type"); CHECK("tree-type", type && (type->s == "Page" || type->s == "Pages"), "object " << ref.i << " " << show(v));
    if (parent) { auto p = v.get("Parent"); CHECK("tree-parent", p && p->k == K::Ref && p->i == parent, "Parent of object " << ref.i << " is " << (p ? show(*p) : "missing") << " expected " << parent); }
    for (auto b : BOXES) if (auto x = v.get(b)) { const V& r = resolve(d, *x); if (r.k == K::Null) continue; CHECK("tree-box", r.k == K::Arr && r.a.size() == 4, b << " of object " << ref.i << " is " << show(r)); double c[4]; for (int i = 0; i < 4; i++) c[i] = resolve(d, r.a[i]).num(); a.box[b] = norm(c[0], c[1], c[2], c[3]); }
    if (auto x = v.get("Rotate")) { const V& r = resolve(d, *x); if (r.k == K::Int) { a.hasRot = true; a.rot = (int)r.i; } }
    if (auto x = v.get("Resources")) { const V& r = resolve(d, *x); if (r.k == K::Dict) { auto t = r.get("VfTag"); a.res = t ? t->i : -3; } }
    if (type->s == "Page") { out.push_back({ ref.i, a }); count++; return; }
    auto k = v.get("Kids"); CHECK("tree-kids", k && resolve(d, *k).k == K::Arr, "Kids of object " << ref.i); int64_t n = 0; for (auto& x : resolve(d, *k).a) walk(d, x, a, ref.i, out, seen, n); auto c = v.get("Count"); CHECK("tree-count", c && resolve(d, *c).k == K::Int && resolve(d, *c).i == n, "Count of object " << ref.i << " is " << (c ? show(resolve(d, *c)) : "missing") << " expected " << n); count += n;
}
static void checkFile(const std::string& bytes, const std::vector<P>& model) {
    auto r = readStrict(bytes); const V* root = r.doc.trailer.get("Root"); CHECK("tree-root", root, "no Root"); auto pages = resolve(r.doc, *root).get("Pages"); CHECK("tree-root", pages, "no Pages"); std::vector<Leaf> ls; std::set<int64_t> seen; int64_t n = 0; walk(r.doc, *pages, {}, 0, ls, seen, n); CHECK_EQ("file-count", ls.size(), model.size(), "pages in the saved file");
    for (unsigned i = 0; i < ls.size(); i++) { auto& p = model[i]; CHECK_EQ("file-order", ls[i].num, (int64_t)p.ref.ObjectNumber(), "page " << i << " of the saved file"); for (auto b : BOXES) CHECK(std::string("file-") + b, same(effective(ls[i].a, b), effective(p.a, b)), b << " of page " << i << " in the saved file is " << bstr(effective(ls[i].a, b)) << " expected " << bstr(effective(p.a, b))); CHECK_EQ("file-rotate", ls[i].a.hasRot ? ls[i].a.rot : 0, p.a.hasRot ? p.a.rot : 0, "of page " << i << " in the saved file"); if (p.a.res != -2) CHECK_EQ("file-resources", ls[i].a.res, p.a.res, "of page " << i << " in the saved file"); }
}
static bool isBox(const PdfObject* o) { return o && o->IsArray(); }
static PdfRect rndRect(pbt::Src& g, Box& b) { double x = (double)g.range(-100, 100), y = (double)g.range(-10000, 10000) / 100, w = (double)g.range(1, 1000), h = (double)g.range(1, 100000) / 100; b = { x, y, x + w, y + h }; return PdfRect(x, y, w, h); }
static void inherit(PdfPage& q, Attr& a) {   // what the node that holds a new page gives it
    PdfObject* o = q.GetDictionary().FindKey("Parent"); for (unsigned i = 0; o && o->IsDictionary() && i < 50; i++) { auto& d = o->GetDictionary(); if (auto* x = d.FindKey("CropBox")) if (x->IsArray() && !a.box.count("CropBox")) { auto& r = x->GetArray(); double c[4]; for (unsigned k = 0; k < 4; k++) c[k] = r.FindAt(k)->GetReal(); a.box["CropBox"] = norm(c[0], c[1], c[2], c[3]); } if (auto* x = d.FindKey("Rotate")) if (x->IsNumber() && !a.hasRot) { a.hasRot = true; a.rot = (int)x->GetNumber(); } if (auto* x = d.FindKey("Resources")) if (x->IsDictionary() && a.res == -1) a.res = -2; o = d.FindKey("Parent"); }
}
static void edit(pbt::Src& g, std::unique_ptr<PdfMemDocument>& doc, std::vector<P>& model, unsigned ops, std::string source) {
    unsigned changes = 0; std::string base = source; std::deque<std::string> files;
    for (unsigned o = 0; o < ops; o++) {
        auto& pages = doc->GetPages(); unsigned n = (unsigned)model.size();
        switch (g.weighted({ 5, 4, 4, 4, 2, 2, 2, 3, 2, 1, 2, 2 })) {
            case 0: { unsigned at = g.coin() ? n : (unsigned)g.draw(n); Box b; PdfRect r = rndRect(g, b); PdfPage* q; if (at == n && g.coin()) q = &pages.CreatePage(r); else { unsigned want = at == n && g.coin() ? n + (unsigned)g.draw(5) : at; q = &pages.CreatePageAt(want, r); } P p; p.ref = q->GetObject().GetIndirectReference(); p.a.box["MediaBox"] = b; p.held = q; inherit(*q, p.a); for (auto& x : model) CHECK("new-ref", x.ref != p.ref, "the new page has the reference of another"); model.insert(model.begin() + at, p); g.trace("create at ", at, " ", p.ref.ToString()); changes++; break; }
            case 1: { if (!n) break; unsigned at = (unsigned)g.draw(n - 1); pages.RemovePageAt(at); g.trace("remove ", at); model.erase(model.begin() + at); changes++; break; }
            case 2: { if (n < 2) break; unsigned from = (unsigned)g.draw(n - 1), to = (unsigned)g.draw(n - 1); P p = model[from]; g.trace("move ", from, " to ", to); auto& q = pages.GetPageAt(from); q.MoveAt(to); CHECK_EQ("move-index", pages.GetPageAt(to).GetIndex(), to, "after moving"); model.erase(model.begin() + from); model.insert(model.begin() + to, p); if (model[to].a.res == -1) model[to].a.res = -2; if (!p.a.box.count("CropBox") && isBox(pages.GetPageAt(to).GetDictionary().FindKey("CropBox"))) model[to].a.box["CropBox"] = effective(p.a, "MediaBox"); changes++; g.label("moved a page"); break; }
            case 3: { if (!n) break; unsigned i = (unsigned)g.draw(n - 1); g.trace("look at ", i); checkPage(*doc, i, model[i], g.coin()); break; }
            case 4: { if (!n) break; unsigned i = (unsigned)g.draw(n - 1); Box b; PdfRect r = rndRect(g, b); auto& q = pages.GetPageAt(i); bool trim = g.coin(); if (trim) q.SetTrimBox(r); else q.SetMediaBox(r); model[i].a.box[trim ? "TrimBox" : "MediaBox"] = b; g.trace(trim ? "trim box of " : "media box of ", i, " ", bstr(b)); changes++; break; }
            case 5: { if (!n) break; unsigned i = (unsigned)g.draw(n - 1); auto& q = pages.GetPageAt(i); int r = g.chance(1, 6) ? (int)g.range(-400, 800) : 90 * (int)g.draw(3); bool ok = r == 0 || r == 90 || r == 180 || r == 270; bool threw = false; try { q.SetRotationRaw(r); } catch (PdfError&) { threw = true; } CHECK_EQ("set-rotation", threw, !ok, "SetRotationRaw(" << r << ")"); if (ok) { model[i].a.hasRot = true; model[i].a.rot = r; changes++; } g.trace("rotate ", i, " ", r); break; }
            case 6: { if (!n) break; unsigned i = (unsigned)g.draw(n - 1); auto& p = model[i]; auto& q = pages.GetPageAt(i); bool width = g.coin(); int s = (int)g.range(1, 2000); bool own = p.a.box.count("CropBox") != 0; Box mb = effective(p.a, "MediaBox"), cb = effective(p.a, "CropBox"); bool ok = width ? q.SetPageWidth(s) : q.SetPageHeight(s); g.trace(width ? "width of " : "height of ", i, " ", s); CHECK("set-size", ok, "SetPageWidth/Height fails"); Box nm = boxOf(q.GetMediaBox()), nc = boxOf(q.GetCropBox()); int a = width ? 0 : 1, c = 1 - a;
                CHECK("set-size", std::fabs(nm[a + 2] - nm[a] - s) < 1e-6 && std::fabs(nc[a + 2] - nc[a] - s) < 1e-6, "boxes are " << bstr(nm) << bstr(nc) << " after setting " << s); CHECK("set-size", std::fabs(nm[c] - mb[c]) < 1e-6 && std::fabs(nm[c + 2] - mb[c + 2]) < 1e-6 && std::fabs(nc[c] - cb[c]) < 1e-6 && std::fabs(nc[c + 2] - cb[c + 2]) < 1e-6, "the other dimension changed: " << bstr(mb) << bstr(cb) << " to " << bstr(nm) << bstr(nc)); p.a.box["MediaBox"] = nm; if (own) p.a.box["CropBox"] = nc; changes++; g.label("page size set"); break; }
            case 7: { if (!n) break; unsigned i = (unsigned)g.draw(n - 1); auto& q = pages.GetPage(model[i].ref); CHECK_EQ("by-reference", q.GetObject().GetIndirectReference().ToString(), model[i].ref.ToString(), "GetPage(reference)"); CHECK_EQ("by-reference", q.GetIndex(), i, "index of the page found by reference"); if (model[i].held) CHECK("by-reference", model[i].held == &q, "another page object"); break; }
            case 8: { if (!n) break; unsigned i = (unsigned)g.draw(n - 1); auto& p = model[i]; auto& q = pages.GetPageAt(i); Box b; PdfRect r = rndRect(g, b); PdfArray a; r.ToArray(a); auto name = g.pick<const char*>({ "CropBox", "BleedBox", "ArtBox" }); q.GetDictionary().AddKey(name, a); p.a.box[name] = b; g.trace(name, " of ", i, " ", bstr(b)); changes++; break; }
            case 9: { unsigned k = n + (unsigned)g.draw(3); bool threw = false; try { pages.RemovePageAt(k); } catch (PdfError& e) { threw = e.GetError() == PdfErrorCode::PageNotFound; } CHECK("remove-range", threw, "RemovePageAt(" << k << ") of " << n << " pages is accepted"); PdfReference r(60000, 0); threw = false; try { pages.GetPage(r); } catch (PdfError& e) { threw = e.GetError() == PdfErrorCode::PageNotFound; } CHECK("unknown-reference", threw, "GetPage of an unknown reference"); break; }
            case 10: { bool upd = !base.empty() && g.coin(); std::string out; if (upd) { out = base; StringStreamDevice dev(out); doc->SaveUpdate(dev, PdfSaveOptions::NoModifyDateUpdate); } else out = save(*doc, genSave(g)); g.trace(upd ? "update" : "save", " and load"); checkFile(out, model); base = out; doc.reset(); files.push_back(out); doc = loadMm(files.back(), (unsigned)g.draw(2)); CHECK_EQ("reload-count", doc->GetPages().GetCount(), model.size(), "after reloading"); for (auto& p : model) p.held = nullptr; g.label(upd ? "updated and reloaded" : "saved and reloaded"); break; }
            default: { if (!n) break; unsigned i = (unsigned)g.draw(n - 1); auto& p = model[i]; if (p.a.res == -2) break; auto& q = pages.GetPageAt(i); bool had = q.GetResources() != nullptr; auto& r = q.GetOrCreateResources(); CHECK_EQ("create-resources", had, p.a.res != -1, "page " << i << " has resources"); if (!had) { p.a.res = 5000 + (int64_t)o; r.GetDictionary().AddKey("VfTag", PdfObject(p.a.res)); changes++; g.trace("new resources of ", i); } break; }
        }
        if (g.chance(1, 3)) checkAll(*doc, model, g);
    }
    checkAll(*doc, model, g); std::string out = save(*doc, genSave(g)); checkFile(out, model); auto again = loadMm(out, (unsigned)g.draw(2)); for (auto& p : model) p.held = nullptr; checkAll(*again, model, g);
    if (changes >= 3) g.nontrivial();
}
PROP(C15, loaded, 12000, 300000, 20) {
    TreeGen t(g, 14); t.run(); Layout l; l.xref = (int)g.draw(2); l.objStreams = l.xref && g.coin(); std::string bytes = write(g, t.m, l, g.coin()); g.trace(str(t.m)); auto doc = loadMm(bytes, (unsigned)g.draw(2)); std::vector<P> model; for (auto n : t.order) { P p; p.ref = PdfReference((uint32_t)n, 0); p.a = t.attrs[n]; model.push_back(p); } if (t.nodes > 2 && t.order.size() > 1) g.nontrivial(); if (t.nodes > 1) g.label("nested nodes"); if (t.order.empty()) g.label("no pages");
    edit(g, doc, model, g.size(16), bytes);
}
PROP(C15, built, 8000, 200000, 20) {
    std::unique_ptr<PdfMemDocument> doc(new PdfMemDocument()); std::vector<P> model; edit(g, doc, model, 4 + g.size(26), "");
}
PROP(C15, large, 20, 400, 60) {   // many pages, deep trees
    std::unique_ptr<PdfMemDocument> doc(new PdfMemDocument()); std::vector<P> model; unsigned n = 300 + (unsigned)g.draw(700); for (unsigned i = 0; i < n; i++) { unsigned at = g.chance(1, 10) ? (unsigned)g.draw(i) : i; Box b = { 0, 0, 100, (double)i + 1 }; auto& q = doc->GetPages().CreatePageAt(at, PdfRect(0, 0, 100, i + 1)); P p; p.ref = q.GetObject().GetIndirectReference(); p.a.box["MediaBox"] = b; model.insert(model.begin() + at, p); }
    for (unsigned k = 0; k < 60; k++) { unsigned from = (unsigned)g.draw(model.size() - 1), to = (unsigned)g.draw(model.size() - 1); if (g.coin()) { doc->GetPages().GetPageAt(from).MoveAt(to); P p = model[from]; model.erase(model.begin() + from); model.insert(model.begin() + to, p); } else { doc->GetPages().RemovePageAt(from); model.erase(model.begin() + from); } }
    g.nontrivial(); checkAll(*doc, model, g); std::string out = save(*doc, PdfSaveOptions::None); checkFile(out, model); auto again = loadMm(out, 0); for (auto& p : model) p.held = nullptr; checkAll(*again, model, g);
}
