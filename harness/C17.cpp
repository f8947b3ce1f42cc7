// C17: the outline is the tree that was built.
#include "refdoc.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the outline has at least three items on two levels, or an item was removed from it";
    pbt::g_assumptions = "loaded outlines are well formed trees; titles are valid text strings\nthe /Count entries are judged when the loaded ones were right (or there were none); items the library gives their first child are closed\nthe destinations lead to pages that stay in the document\nthe root of the outline is not removed and gets no siblings";
} } init;
struct D { std::string type; int64_t page = 0; std::vector<double> v; };
static const std::map<std::string, PdfDestinationType> TYPES = { { "XYZ", PdfDestinationType::XYZ }, { "Fit", PdfDestinationType::Fit }, { "FitH", PdfDestinationType::FitH }, { "FitV", PdfDestinationType::FitV }, { "FitR", PdfDestinationType::FitR }, { "FitB", PdfDestinationType::FitB }, { "FitBH", PdfDestinationType::FitBH }, { "FitBV", PdfDestinationType::FitBV } };
static std::string show(const D& d) { std::ostringstream s; s << d.type << " page " << d.page; for (auto x : d.v) s << " " << x; return s.str(); }
struct N { std::string title; std::optional<D> dest; std::optional<std::string> uri; int fmt = 0; std::optional<std::array<double, 3>> color; bool open = false; int64_t num = 0; std::vector<std::unique_ptr<N>> kids; N* up = nullptr; PdfOutlineItem* it = nullptr; };
static std::string sketch(const N& n) { std::string r; for (auto& k : n.kids) r += "{" + k->title + sketch(*k) + "}"; return r; }
static size_t total(const N& n) { size_t r = 0; for (auto& k : n.kids) r += 1 + total(*k); return r; }
static int64_t visible(const N& n) { int64_t r = 0; for (auto& k : n.kids) r += 1 + (k->open ? visible(*k) : 0); return r; }
static void flat(N& n, std::vector<N*>& out) { for (auto& k : n.kids) { out.push_back(k.get()); flat(*k, out); } }
static std::string genTitle(pbt::Src& g) { return utf8(genText(g, 1 + g.size(8), (int)g.draw(3))); }
static double num(pbt::Src& g) { return (double)g.range(-400, 4000) / 4; }
static D genDest(pbt::Src& g, const std::vector<int64_t>& pages) { D d; d.page = g.pick(pages); d.type = g.pick<const char*>({ "Fit", "XYZ", "FitH", "FitV", "FitR", "FitB", "FitBH", "FitBV" }); unsigned n = d.type == "XYZ" ? 3 : d.type == "FitR" ? 4 : d.type == "Fit" || d.type == "FitB" ? 0 : 1; for (unsigned i = 0; i < n; i++) d.v.push_back(num(g)); if (d.type == "FitR") { if (d.v[2] < d.v[0]) std::swap(d.v[0], d.v[2]); if (d.v[3] < d.v[1]) std::swap(d.v[1], d.v[3]); } return d; }
static PdfPage& pageOf(PdfMemDocument& doc, int64_t n) { return doc.GetPages().GetPage(PdfReference((uint32_t)n, 0)); }
static std::shared_ptr<PdfDestination> toMm(PdfMemDocument& doc, const D& d) {
    auto& p = pageOf(doc, d.page); if (d.type == "XYZ") return std::make_shared<PdfDestination>(p, d.v[0], d.v[1], d.v[2]); if (d.type == "FitR") return std::make_shared<PdfDestination>(p, PdfRect(d.v[0], d.v[1], d.v[2] - d.v[0], d.v[3] - d.v[1]));
    if (d.type == "Fit") return std::make_shared<PdfDestination>(p); if (d.type == "FitB") return std::make_shared<PdfDestination>(p, PdfDestinationFit::FitB);
    auto f = d.type == "FitH" ? PdfDestinationFit::FitH : d.type == "FitV" ? PdfDestinationFit::FitV : d.type == "FitBH" ? PdfDestinationFit::FitBH : PdfDestinationFit::FitBV; return std::make_shared<PdfDestination>(p, f, d.v[0]);
}
static bool near(double a, double b) { return std::fabs(a - b) <= 2e-6 * std::max(1.0, std::fabs(b)); }
template <class F> static std::optional<double> tryNum(F f) { try { return f(); } catch (PdfError& e) { if (e.GetError() != PdfErrorCode::WrongDestinationType) throw; return std::nullopt; } }
static void checkDest(PdfDestination& d, const D& w, const std::string& id) {
    CHECK("dest-type", d.GetType() == TYPES.at(w.type), id << " destination type " << (int)d.GetType() << " expected " << show(w)); auto p = d.GetPage(); CHECK("dest-page", p && p->GetObject().GetIndirectReference().ToString() == PdfReference((uint32_t)w.page, 0).ToString(), id << " page of the destination, expected " << show(w));
    std::optional<double> left, top, zoom, val; auto& t = w.type; if (t == "XYZ") { left = w.v[0]; top = w.v[1]; zoom = w.v[2]; } else if (t == "FitR") { left = w.v[0]; top = w.v[3]; } else if (t == "FitH" || t == "FitBH") { top = val = w.v[0]; } else if (t == "FitV" || t == "FitBV") { left = val = w.v[0]; }
    auto cmp = [&](const char* what, std::optional<double> got, std::optional<double> want) { CHECK(std::string("dest-") + what, got.has_value() == want.has_value() && (!got || near(*got, *want)), id << " " << what << " is " << (got ? std::to_string(*got) : "refused") << " for " << show(w)); };
    cmp("left", tryNum([&] { return d.GetLeft(); }), left); cmp("top", tryNum([&] { return d.GetTop(); }), top); cmp("zoom", tryNum([&] { return d.GetZoom(); }), zoom); cmp("value", tryNum([&] { return d.GetDValue(); }), val);
    if (t == "FitR") { auto r = d.GetRect(); CHECK("dest-rect", near(r.GetLeft(), w.v[0]) && near(r.GetBottom(), w.v[1]) && near(r.GetRight(), w.v[2]) && near(r.GetTop(), w.v[3]), id << " rectangle of the destination is " << r.GetLeft() << " " << r.GetBottom() << " " << r.GetRight() << " " << r.GetTop() << " for " << show(w)); } else { bool threw = false; try { d.GetRect(); } catch (PdfError&) { threw = true; } CHECK("dest-rect", threw, id << " has a rectangle"); }
}
static void checkItem(PdfOutlineItem& it, const N& n, const std::string& id) {
    CHECK_EQ("title", it.GetTitle().GetString(), n.title, id); CHECK_EQ("format", (int)it.GetTextFormat(), n.fmt, id); auto c = n.color.value_or(std::array<double, 3>{ 0, 0, 0 }); CHECK("color", near(it.GetTextColorRed(), c[0]) && near(it.GetTextColorGreen(), c[1]) && near(it.GetTextColorBlue(), c[2]), id << " color " << it.GetTextColorRed() << " " << it.GetTextColorGreen() << " " << it.GetTextColorBlue() << " expected " << c[0] << " " << c[1] << " " << c[2]);
    auto d = it.GetDestination(); if (n.dest) { CHECK("dest", d != nullptr, id << " has no destination, expected " << show(*n.dest)); checkDest(*d, *n.dest, id); } else CHECK("dest", !d || d->GetArray().GetSize() == 0, id << " has a destination");
    auto a = it.GetAction(); CHECK("action", (a != nullptr) == n.uri.has_value(), id << (a ? " has an action" : " has no action")); if (a) { CHECK("action", a->GetType() == PdfActionType::URI && a->HasURI(), id << " type of the action"); CHECK_EQ("action", a->GetURI().GetString(), *n.uri, id); }
}
static void checkLevel(PdfOutlineItem* up, N& n, bool bind) {
    std::string id = n.up ? "item " + pbt::show(n.title) : "the root"; PdfOutlineItem *prev = nullptr, *cur = up->First(); size_t i = 0;
    for (; cur && i < n.kids.size(); cur = cur->Next(), i++) { auto& k = *n.kids[i]; std::string kid = "child " + std::to_string(i) + " of " + id; if (bind) k.it = cur; CHECK("identity", k.it == cur, kid << " is not the item that was created"); CHECK("prev", cur->Prev() == prev, kid << ": Prev"); CHECK("parent", cur->GetParentOutline() == up, kid << ": parent"); checkItem(*cur, k, kid); checkLevel(cur, k, bind); prev = cur; }
    CHECK("children", !cur && i == n.kids.size(), id << " has " << (cur ? "more" : "less") << " children than " << n.kids.size()); CHECK("last", up->Last() == prev, id << ": Last");
}
static void checkApi(PdfMemDocument& doc, N& root, bool bind) { auto o = doc.GetOutlines(); if (!o) { CHECK("outlines", root.kids.empty(), "the document has no outlines"); return; } CHECK("root-links", !o->Prev() && !o->Next() && !o->GetParentOutline(), "the root has siblings or a parent"); checkLevel(o, root, bind); }
// ---- what the saved file holds, read independently -------------------------------
static const V* ent(const Doc& d, const V& v, const char* k) { auto p = v.get(k); if (!p) return nullptr; auto& r = resolve(d, *p); return r.k == K::Null ? nullptr : &r; }
static const V* raw(const Doc& d, const V& v, const char* k) { auto p = v.get(k); return p && resolve(d, *p).k != K::Null ? p : nullptr; }
static int64_t refNum(const Doc& d, const V& v, const char* k) { auto p = raw(d, v, k); if (!p) return 0; return p->k == K::Ref ? p->i : -1; }
static void fileItem(const Doc& d, const V& o, const N& n, const std::string& id) {
    auto t = ent(d, o, "Title"); CHECK("file-title", t && t->k == K::Str && bytesText(t->s) == n.title, id << " Title " << (t ? show(*t) : "missing") << " expected " << n.title); auto f = ent(d, o, "F"); CHECK("file-format", (f ? f->i : 0) == n.fmt, id << " F"); auto c = ent(d, o, "C"); if (n.color) { CHECK("file-color", c && c->k == K::Arr && c->a.size() == 3, id << " C"); for (int i = 0; i < 3; i++) CHECK("file-color", near(resolve(d, c->a[i]).num(), (*n.color)[i]), id << " C " << show(*c)); }
    auto e = ent(d, o, "Dest"); if (!n.dest) CHECK("file-dest", !e || (e->k == K::Arr && e->a.empty()), id << " has Dest " << show(*e)); else { CHECK("file-dest", e, id << " has no Dest"); if (e->k == K::Name) { auto ds = ent(d, d.objs.at(d.trailer.get("Root")->i).v, "Dests"); CHECK("file-dest", ds && ent(d, *ds, e->s.c_str()), id << " names " << e->s); e = ent(d, *ds, e->s.c_str()); if (e->k == K::Dict) e = ent(d, *e, "D"); } CHECK("file-dest", e && e->k == K::Arr && e->a.size() == 2 + n.dest->v.size(), id << " Dest " << show(*e) << " expected " << show(*n.dest)); CHECK("file-dest", e->a[0].k == K::Ref && e->a[0].i == n.dest->page && resolve(d, e->a[1]).s == n.dest->type, id << " Dest " << show(*e) << " expected " << show(*n.dest)); for (size_t i = 0; i < n.dest->v.size(); i++) CHECK("file-dest", near(resolve(d, e->a[2 + i]).num(), n.dest->v[i]), id << " Dest " << show(*e) << " expected " << show(*n.dest)); }
    auto a = ent(d, o, "A"); CHECK("file-action", (a != nullptr) == n.uri.has_value(), id << (a ? " has A" : " has no A")); if (a) { auto s = ent(d, *a, "S"), u = ent(d, *a, "URI"); CHECK("file-action", s && s->s == "URI" && u && u->k == K::Str && bytesText(u->s) == *n.uri, id << " A " << show(*a)); }
}
static void fileLevel(const Doc& d, int64_t up, const N& n, bool counts, std::set<int64_t>& seen) {
    std::string id = "in the saved file, " + (n.up ? "item " + pbt::show(n.title) : std::string("the root")); auto& o = d.objs.at(up).v; int64_t cur = refNum(d, o, "First"), prev = 0; size_t i = 0;
    while (cur && i < n.kids.size()) { std::string kid = "child " + std::to_string(i) + " of " + id; CHECK("file-link", cur > 0 && d.objs.count(cur) && seen.insert(cur).second, kid << " is object " << cur); auto& k = d.objs.at(cur).v; CHECK_EQ("file-parent", refNum(d, k, "Parent"), up, kid); CHECK_EQ("file-prev", refNum(d, k, "Prev"), prev, kid); fileItem(d, k, *n.kids[i], kid); fileLevel(d, cur, *n.kids[i], counts, seen); prev = cur; cur = refNum(d, k, "Next"); i++; }
    CHECK("file-children", !cur && i == n.kids.size(), id << " has " << (cur ? "more" : "less") << " children than " << n.kids.size()); CHECK_EQ("file-last", refNum(d, o, "Last"), prev, id);
    if (counts) { auto c = ent(d, o, "Count"); int64_t w = visible(n); if (n.up && !n.open) w = -w; CHECK("file-count", (c ? c->i : 0) == w, id << " has Count " << (c ? show(*c) : "absent") << " expected " << w << " in " << pbt::show(sketch(n), 200)); }
}
static void checkFile(const std::string& bytes, const N& root, bool counts) { auto r = readStrict(bytes); auto& cat = resolve(r.doc, *r.doc.trailer.get("Root")); int64_t o = refNum(r.doc, cat, "Outlines"); if (!o) { CHECK("file-outlines", root.kids.empty(), "no outlines in the saved file"); return; } CHECK("file-outlines", o > 0 && r.doc.objs.count(o), "Outlines"); std::set<int64_t> seen{ o }; fileLevel(r.doc, o, root, counts, seen); }
// ---- outlines of another producer ------------------------------------------------
struct Gen { pbt::Src& g; M m; int64_t next = 1; std::vector<int64_t> pages; V dests = V::dict(); bool counts;
    Gen(pbt::Src& g) : g(g) { counts = !g.chance(1, 6); }
    V ind(V v, unsigned den) { if (!g.chance(1, den)) return v; int64_t n = next++; m.d.objs[n].v = v; return V::refTo(n); }
    V number(double x) { return ind(x == std::floor(x) && g.coin() ? V::integer((int64_t)x) : V::real(x), 25); }
    void fill(N& n, V& d) {
        n.title = genTitle(g); d.m["Title"] = ind(V::str(textBytes(n.title), g.coin()), 8); if (g.chance(1, 4)) { n.fmt = (int)g.draw(3); d.m["F"] = ind(V::integer(n.fmt), 6); } if (g.chance(1, 4)) { n.color = std::array<double, 3>{ (double)g.draw(4) / 4, (double)g.draw(4) / 4, (double)g.draw(4) / 4 }; d.m["C"] = ind(V::arr({ number((*n.color)[0]), number((*n.color)[1]), number((*n.color)[2]) }), 6); }
        switch (g.draw(3)) { case 0: break; case 1: { n.uri = "http://x/" + std::to_string(g.draw(999)); d.m["A"] = ind(V::dict({ { "S", V::name("URI") }, { "URI", V::str(*n.uri) } }), 3); break; } default: { n.dest = genDest(g, pages); std::vector<V> a{ V::refTo(n.dest->page), V::name(n.dest->type) }; for (auto x : n.dest->v) a.push_back(number(x)); V dv = ind(V::arr(a), 4); if (g.chance(1, 5)) { std::string nm = "d" + std::to_string(dests.m.size()); dests.m[nm] = g.coin() ? V::dict({ { "D", dv } }) : dv; d.m["Dest"] = V::name(nm); g.label("named destination"); } else d.m["Dest"] = dv; } }
        for (auto k : { "F", "C", "First", "Last", "Count" }) if (!d.get(k) && g.chance(1, 60)) { d.m[k] = V::null(); g.label("null entry"); }
    }
    int64_t item(N& n, int64_t parent, unsigned depth, unsigned& budget) {
        int64_t me = next++; n.num = me; V d = V::dict({ { "Parent", V::refTo(parent) } }); unsigned k = depth < 6 && g.chance(1, 2) ? g.size(4) : 0; std::vector<int64_t> at; for (unsigned i = 0; i < k && budget; i++) { budget--; n.kids.emplace_back(new N()); n.kids.back()->up = &n; at.push_back(item(*n.kids.back(), me, depth + 1, budget)); }
        link(at); if (!at.empty()) { d.m["First"] = V::refTo(at.front()); d.m["Last"] = V::refTo(at.back()); n.open = counts && g.coin(); if (counts) d.m["Count"] = V::integer(n.open ? visible(n) : -visible(n)); } fill(n, d); m.d.objs[me].v = d; return me;
    }
    void link(const std::vector<int64_t>& at) { for (size_t i = 0; i < at.size(); i++) { auto& d = m.d.objs[at[i]].v; if (i) d.m["Prev"] = V::refTo(at[i - 1]); if (i + 1 < at.size()) d.m["Next"] = V::refTo(at[i + 1]); else if (g.chance(1, 40)) { d.m["Next"] = V::null(); g.label("null entry"); } } }
    std::string run(N& root) {
        int64_t cat = next++, tree = next++; unsigned np = 1 + (unsigned)g.draw(2); std::vector<V> kids; for (unsigned i = 0; i < np; i++) { int64_t p = next++; m.d.objs[p].v = V::dict({ { "Type", V::name("Page") }, { "Parent", V::refTo(tree) }, { "MediaBox", V::arr({ V::integer(0), V::integer(0), V::integer(100), V::integer(100) }) } }); pages.push_back(p); kids.push_back(V::refTo(p)); } m.d.objs[tree].v = V::dict({ { "Type", V::name("Pages") }, { "Kids", V::arr(kids) }, { "Count", V::integer(np) } });
        int64_t out = next++; unsigned budget = g.size(14), top = g.size(4); V o = V::dict(); if (g.coin()) o.m["Type"] = V::name("Outlines"); std::vector<int64_t> at; for (unsigned i = 0; i < top && budget; i++) { budget--; root.kids.emplace_back(new N()); root.kids.back()->up = &root; at.push_back(item(*root.kids.back(), out, 1, budget)); } link(at); if (!at.empty()) { o.m["First"] = V::refTo(at.front()); o.m["Last"] = V::refTo(at.back()); if (counts) o.m["Count"] = V::integer(visible(root)); } else if (g.coin()) o.m["Count"] = V::integer(0); m.d.objs[out].v = o;
        V c = V::dict({ { "Type", V::name("Catalog") }, { "Pages", V::refTo(tree) }, { "Outlines", V::refTo(out) } }); if (!dests.m.empty()) c.m["Dests"] = ind(dests, 2); m.d.objs[cat].v = c; m.d.trailer = V::dict({ { "Root", V::refTo(cat) } }); m.d.version = "1.7"; Layout l; l.xref = (int)g.draw(2); l.objStreams = l.xref && g.coin(); return write(g, m, l, g.coin());
    }
};
static void edit(pbt::Src& g, std::unique_ptr<PdfMemDocument>& doc, N& root, const std::vector<int64_t>& pages, bool counts, unsigned ops, std::string base) {
    std::deque<std::string> files; bool removed = false; auto mk = [&](N& up, size_t at) -> N& { auto n = std::make_unique<N>(); n->up = &up; auto& r = *n; up.kids.insert(up.kids.begin() + at, std::move(n)); return r; };
    auto pos = [](N& n) { size_t i = 0; while (n.up->kids[i].get() != &n) i++; return i; };
    for (unsigned o = 0; o < ops; o++) {
        std::vector<N*> all; flat(root, all); auto any = [&]() -> N& { return *all[g.draw(all.size() - 1)]; };
        switch (g.weighted({ 4, 5, 6, 3, 2, 2, 2, 2, 1, 2 })) {
            case 0: { auto t = genTitle(g); auto it = doc->GetOrCreateOutlines().CreateRoot(PdfString(t)); auto& n = mk(root, root.kids.size()); n.title = t; n.it = it; g.trace("root ", pbt::show(t)); break; }
            case 1: { auto t = genTitle(g); D d = genDest(g, pages); N& up = all.empty() || g.chance(1, 5) ? root : any(); auto it = (&up == &root ? &doc->GetOrCreateOutlines() : up.it)->CreateChild(PdfString(t), toMm(*doc, d)); auto& n = mk(up, up.kids.size()); n.title = t; n.dest = d; n.it = it; g.trace("child of ", pbt::show(up.title), ": ", pbt::show(t), " ", show(d)); break; }
            case 2: { if (all.empty()) break; N& at = any(); auto t = genTitle(g); PdfOutlineItem* it; std::optional<D> d; std::optional<std::string> u; if (g.coin()) { d = genDest(g, pages); it = at.it->CreateNext(PdfString(t), toMm(*doc, *d)); } else { u = "http://y/" + std::to_string(o); auto a = std::make_shared<PdfAction>(*doc, PdfActionType::URI); a->SetURI(PdfString(*u)); it = at.it->CreateNext(PdfString(t), a); } auto& n = mk(*at.up, pos(at) + 1); n.title = t; n.dest = d; n.uri = u; n.it = it; g.trace("after ", pbt::show(at.title), ": ", pbt::show(t)); break; }
            case 3: { if (all.empty()) break; N& n = any(); g.trace("erase ", pbt::show(n.title), " with ", total(n), " below"); n.it->Erase(); N& up = *n.up; up.kids.erase(up.kids.begin() + pos(n)); if (up.kids.empty()) up.open = false; removed = true; g.label("removed items"); break; }
            case 4: { if (all.empty()) break; N& n = any(); n.title = genTitle(g); n.it->SetTitle(PdfString(n.title)); break; }
            case 5: { if (all.empty()) break; N& n = any(); D d = genDest(g, pages); bool threw = false; try { n.it->SetDestination(toMm(*doc, d)); } catch (PdfError& e) { threw = e.GetError() == PdfErrorCode::ActionAlreadyPresent; if (!threw) throw; } CHECK_EQ("dest-and-action", threw, n.uri.has_value(), "SetDestination on an item " << (n.uri ? "with" : "without") << " action"); if (!threw) n.dest = d; break; }
            case 6: { if (all.empty()) break; N& n = any(); std::string u = "http://z/" + std::to_string(o); auto a = std::make_shared<PdfAction>(*doc, PdfActionType::URI); a->SetURI(PdfString(u)); bool threw = false; try { n.it->SetAction(a); } catch (PdfError& e) { threw = e.GetError() == PdfErrorCode::ActionAlreadyPresent; if (!threw) throw; } CHECK_EQ("dest-and-action", threw, n.dest.has_value(), "SetAction on an item " << (n.dest ? "with" : "without") << " destination"); if (!threw) n.uri = u; break; }
            case 7: { if (all.empty()) break; N& n = any(); if (g.coin()) { n.fmt = (int)g.draw(3); n.it->SetTextFormat((PdfOutlineFormat)n.fmt); } else { n.color = std::array<double, 3>{ (double)g.draw(8) / 8, (double)g.draw(8) / 8, (double)g.draw(8) / 8 }; n.it->SetTextColor((*n.color)[0], (*n.color)[1], (*n.color)[2]); } break; }
            case 8: { if (all.size() < 2) break; N &a = any(), &b = any(); bool threw = false; try { a.it->InsertChild(b.it); } catch (PdfError& e) { threw = e.GetError() == PdfErrorCode::OutlineItemAlreadyPresent; } CHECK("insert-present", threw, "inserting an item of the same tree is accepted"); break; }
            default: { bool upd = !base.empty() && g.coin(); std::string out; if (upd) { out = base; StringStreamDevice dev(out); doc->SaveUpdate(dev, PdfSaveOptions::NoModifyDateUpdate); } else out = save(*doc, genSave(g)); g.trace(upd ? "update" : "save", " and load"); checkFile(out, root, counts); base = out; doc.reset(); files.push_back(out); doc = loadMm(files.back(), (unsigned)g.draw(2)); checkApi(*doc, root, true); g.label(upd ? "updated and reloaded" : "saved and reloaded"); break; }
        }
        if (g.chance(1, 3)) checkApi(*doc, root, false);
    }
    checkApi(*doc, root, false); if (!doc->GetPages().GetCount()) return; std::string out = save(*doc, genSave(g)); checkFile(out, root, counts); auto again = loadMm(out, (unsigned)g.draw(2)); checkApi(*again, root, true); doc.reset();
    size_t t = total(root); if (removed || (t >= 3 && t > root.kids.size())) g.nontrivial();
}
PROP(C17, loaded, 14000, 400000, 20) {
    Gen x(g); N root; std::string bytes = x.run(root); g.trace(str(x.m)); auto doc = loadMm(bytes, (unsigned)g.draw(2)); checkApi(*doc, root, true); edit(g, doc, root, x.pages, x.counts, g.size(14), bytes); if (!x.counts) g.label("outline without counts");
}
PROP(C17, built, 10000, 300000, 20) {
    auto doc = std::make_unique<PdfMemDocument>(); std::vector<int64_t> pages; for (unsigned i = 0, n = 1 + (unsigned)g.draw(2); i < n; i++) pages.push_back(doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100)).GetObject().GetIndirectReference().ObjectNumber()); N root; edit(g, doc, root, pages, true, 3 + g.size(24), "");
}
PROP(C17, large, 12, 200, 60) {   // long lists and deep trees
    auto doc = std::make_unique<PdfMemDocument>(); std::vector<int64_t> pages{ (int64_t)doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100)).GetObject().GetIndirectReference().ObjectNumber() }; N root; unsigned n = 500 + (unsigned)g.draw(1500); std::vector<N*> all; std::map<N*, unsigned> depth;
    for (unsigned i = 0; i < n; i++) { auto t = "t" + std::to_string(i); D d; d.type = "Fit"; d.page = pages[0]; auto k = std::make_unique<N>(); N* up = all.empty() || g.chance(1, 3) ? &root : g.coin() ? all.back() : all[g.draw(all.size() - 1)]; if (depth[up] > 50) up = &root; k->title = t; k->dest = d; k->up = up; k->it = (up == &root ? &doc->GetOrCreateOutlines() : up->it)->CreateChild(PdfString(t), toMm(*doc, d)); depth[k.get()] = depth[up] + 1; all.push_back(k.get()); up->kids.push_back(std::move(k)); }
    g.nontrivial(); checkApi(*doc, root, false); std::string out = save(*doc); checkFile(out, root, true); auto again = loadMm(out, 0); checkApi(*again, root, true);
}
