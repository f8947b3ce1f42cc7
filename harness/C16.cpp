// C16: copying pages and documents keeps them intact and independent.
#include "refgraph.h"
#include "refrich.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "at least one page with something it refers to was copied between documents";
    pbt::g_assumptions = "the copied documents are well formed, and fonts created for them were embedded by saving them once\nan inherited attribute may be stored on the copied page\nreferences to objects that do not exist mean null";
} } init;
typedef std::map<int64_t, Snap> Objs; typedef std::string S;
// a document model whose pages refer to shared objects, to each other, and inherit from nested nodes
static M model(pbt::Src& g, unsigned pages, unsigned extra, int tag) {
    Opt o; o.extra = extra; o.pages = pages; o.sparse = g.coin(); o.gens = g.chance(1, 4); o.dangling = false; M m = refdoc::gen(g, o); auto nums = m.nums(); int64_t root = m.root(); auto& cat = m.d.objs[root].v; int64_t top = cat.get("Pages")->i;
    std::vector<V> kids = m.d.objs[top].v.get("Kids")->a; int64_t next = m.max() + 1; auto attrs = [&](V& d, unsigned den) { if (g.chance(1, den)) d.m["MediaBox"] = V::arr({ V::integer(0), V::integer(0), V::integer(300 + (int64_t)g.draw(300)), V::integer(400) }); if (g.chance(1, den)) d.m["CropBox"] = V::arr({ V::integer(1), V::integer(2), V::integer(100 + (int64_t)g.draw(90)), V::real(100.25) }); if (g.chance(1, den)) d.m["Rotate"] = V::integer(90 * g.range(0, 3)); if (g.chance(1, den)) { V r = V::dict({ { "VfTag", V::integer(tag * 1000 + (int64_t)g.draw(99)) } }); if (!nums.empty() && g.coin()) r.m["XObject"] = V::dict({ { "X", V::refTo(nums[g.index(nums.size())], 0) } }); if (r.m.count("XObject")) { auto& x = r.m["XObject"].m["X"]; x.gen = m.d.objs[x.i].gen; } d.m["Resources"] = r; } };
    for (size_t i = 0; i < kids.size(); i++) { auto& d = m.d.objs[kids[i].i].v; d.m["VfPage"] = V::integer(tag * 100 + (int64_t)i); if (g.coin()) d.m.erase("Resources"); attrs(d, 4); if (g.chance(1, 3)) d.m["VfOther"] = V::arr({ kids[g.index(kids.size())] });
        if (g.coin()) { int64_t a = next++; V an = V::dict({ { "Type", V::name("Annot") }, { "Subtype", V::name("Link") }, { "Rect", V::arr({ V::integer(0), V::integer(0), V::integer(9), V::integer(9) }) }, { "P", kids[i] }, { "Dest", V::arr({ kids[g.index(kids.size())], V::name("Fit") }) } }); m.d.objs[a].v = an; m.d.objs[kids[i].i].v.m["Annots"] = V::arr({ V::refTo(a) }); }
        if (g.coin()) { int64_t c = next++; setStream(g, m, c, "q 1 0 0 1 " + std::to_string(i) + " 0 cm\n", true); V cs = V::refTo(c); if (g.coin()) { int64_t c2 = next++; setStream(g, m, c2, "0 0 m 1 1 l S Q", true); cs = V::arr({ V::refTo(c), V::refTo(c2) }); } m.d.objs[kids[i].i].v.m["Contents"] = cs; } else m.d.objs[kids[i].i].v.m.erase("Contents"); }
    auto& tp = m.d.objs[top].v; attrs(tp, 3); if (kids.size() > 1 && g.coin()) { int64_t n = next++; size_t a = g.index(kids.size()), b = a + 1 + g.index(kids.size() - a); std::vector<V> in(kids.begin() + a, kids.begin() + b), out(kids.begin(), kids.begin() + a); out.push_back(V::refTo(n)); out.insert(out.end(), kids.begin() + b, kids.end()); V d = V::dict({ { "Type", V::name("Pages") }, { "Parent", V::refTo(top, m.d.objs[top].gen) }, { "Kids", V::arr(in) }, { "Count", V::integer((int64_t)in.size()) } }); attrs(d, 3); m.d.objs[n].v = d; for (auto& k : in) m.d.objs[k.i].v.m["Parent"] = V::refTo(n); m.d.objs[top].v.m["Kids"] = V::arr(out); }
    if (!kids.empty() && g.chance(1, 3)) { // outline of top level items, some nested
        int64_t ol = next++; unsigned n = 1 + (unsigned)g.draw(3); std::vector<int64_t> it; for (unsigned i = 0; i < n; i++) it.push_back(next++); for (unsigned i = 0; i < n; i++) { V d = V::dict({ { "Title", V::str("o" + std::to_string(tag) + "." + std::to_string(i)) }, { "Parent", V::refTo(ol) }, { "Dest", V::arr({ kids[g.index(kids.size())], V::name("Fit") }) } }); if (i) d.m["Prev"] = V::refTo(it[i - 1]); if (i + 1 < n) d.m["Next"] = V::refTo(it[i + 1]); if (g.chance(1, 3)) { int64_t c = next++; m.d.objs[c].v = V::dict({ { "Title", V::str("sub" + std::to_string(c)) }, { "Parent", V::refTo(it[i]) } }); d.m["First"] = d.m["Last"] = V::refTo(c); d.m["Count"] = V::integer(1); } m.d.objs[it[i]].v = d; }
        m.d.objs[ol].v = V::dict({ { "Type", V::name("Outlines") }, { "First", V::refTo(it[0]) }, { "Last", V::refTo(it[n - 1]) }, { "Count", V::integer(n) } }); m.d.objs[root].v.m["Outlines"] = V::refTo(ol); g.label("with outline"); }
    return m;
}
static int64_t rootOf(PdfMemDocument& d) { return d.GetCatalog().GetObject().GetIndirectReference().ObjectNumber(); }
struct Src1 { S bytes; std::unique_ptr<PdfMemDocument> doc; std::shared_ptr<Objs> before; std::vector<int64_t> pages; S outline; int64_t root; };
static Src1 source(pbt::Src& g, int tag) {
    Src1 s; switch (g.weighted({ 4, 2, 1 })) {
        case 0: { M m = model(g, 4, 6, tag); Layout l; l.xref = (int)g.draw(2); l.objStreams = l.xref && g.coin(); s.bytes = refdoc::write(g, m, l, g.coin()); s.doc = loadMm(s.bytes, (unsigned)g.draw(2)); g.label("source loaded"); break; }
        case 1: { s.doc.reset(new PdfMemDocument()); refrich::Opt o; o.forms = false; refrich::enrich(g, *s.doc, 1 + g.size(8), o); (void)save(*s.doc); g.label("source built with the API"); break; }
        default: { PdfMemDocument d; refrich::Opt o; o.forms = false; refrich::enrich(g, d, 1 + g.size(6), o); d.SetEncrypted("u", "o", PdfPermissions::Default, g.coin() ? PdfEncryptAlgorithm::AESV2 : PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128); s.bytes = save(d, genSave(g)); s.doc.reset(new PdfMemDocument()); s.doc->LoadFromBuffer(bufferview(s.bytes.data(), s.bytes.size()), "u"); g.label("source encrypted"); } }
    (void)s.doc->GetPages().GetCount(); s.root = rootOf(*s.doc); s.before = std::make_shared<Objs>(snapshot(*s.doc)); s.pages = refgraph::pages(*s.before, s.root); S err; s.outline = refgraph::outline(*s.before, s.root, err); return s;
}
static S objsDiff(const Objs& now, const Objs& was) { for (auto& e : was) { auto it = now.find(e.first); if (it == now.end()) return "object " + std::to_string(e.first) + " is gone"; auto d = diff(it->second.v, e.second.v); if (!d.empty()) return "object " + std::to_string(e.first) + d; if (it->second.hasStream != e.second.hasStream || it->second.data != e.second.data) return "stream of object " + std::to_string(e.first); } if (now.size() != was.size()) return "there are " + std::to_string(now.size()) + " objects instead of " + std::to_string(was.size()); return ""; }
struct Exp { std::shared_ptr<Objs> objs; int64_t page; };
static void checkPages(pbt::Src& g, const Objs& now, int64_t root, const std::vector<Exp>& want, const char* when) {
    auto ps = refgraph::pages(now, root); CHECK_EQ("page count", ps.size(), want.size(), when << ": number of pages");
    std::set<int64_t> live(ps.begin(), ps.end()); for (size_t i = 0; i < ps.size(); i++) { refgraph::Iso iso(*want[i].objs, now); iso.live = &live; S r = iso.page(want[i].page, ps[i], "page " + std::to_string(i)); CHECK("page-content", r.empty(), when << ": " << r << " (source object " << want[i].page << ", now " << ps[i] << ")"); if (iso.objects > 2 || iso.streams) g.label("pages refer to further objects"); }
}
static void vandalise(PdfMemDocument& d) { for (auto o : d.GetObjects()) { if (o->IsDictionary()) { o->GetDictionary().AddKey(PdfName("VfVandal"), PdfObject((int64_t)1)); if (o->HasStream()) { auto s = o->GetStream(); if (s) s->SetData(bufferview("vandal", (size_t)6)); } } else if (o->IsArray()) o->GetArray().Add(PdfObject((int64_t)77)); } }
PROP(C16, copy, 6000, 150000, 8) {
    PdfMemDocument* dp; S keep; std::unique_ptr<PdfMemDocument> own; if (g.coin()) { M m = model(g, 3, 4, 9); Layout l; l.xref = (int)g.draw(1); keep = refdoc::write(g, m, l, false); own = loadMm(keep, (unsigned)g.draw(2)); g.label("destination loaded"); } else { own.reset(new PdfMemDocument()); if (g.coin()) { refrich::Opt o; o.forms = false; refrich::enrich(g, *own, g.size(4), o); (void)save(*own); } }
    dp = own.get(); PdfMemDocument& dst = *dp; int64_t root = rootOf(dst); std::vector<Exp> want; S outline, err; auto base = std::make_shared<Objs>(snapshot(dst)); for (auto p : refgraph::pages(*base, root)) want.push_back({ base, p }); outline = refgraph::outline(*base, root, err);
    std::vector<Src1> srcs; unsigned ns = 1 + (unsigned)g.draw(1); for (unsigned i = 0; i < ns; i++) srcs.push_back(source(g, (int)i + 1)); unsigned ops = 1 + (unsigned)g.draw(2); bool copied = false;
    for (unsigned k = 0; k < ops; k++) {
        auto& s = srcs[g.index(srcs.size())]; unsigned n = (unsigned)s.pages.size();
        if (g.coin() && !want.empty()) { for (unsigned i = 0; i < want.size(); i++) if (g.coin()) (void)dst.GetPages().GetPageAt(i).GetMediaBox(); } // held by the cache
        switch (g.weighted({ 3, 3, 3, 1, 1 })) {
            case 0: dst.GetPages().AppendDocumentPages(*s.doc); g.trace("append all of source ", n, " pages"); for (auto p : s.pages) want.push_back({ s.before, p }); outline += s.outline; copied |= n > 0; break;
            case 1: { unsigned at = (unsigned)g.draw(n), c = (unsigned)g.draw(n - at); g.trace("append pages ", at, "+", c, " of ", n); dst.GetPages().AppendDocumentPages(*s.doc, at, c); for (unsigned i = at; i < at + c; i++) want.push_back({ s.before, s.pages[i] }); outline += s.outline; copied |= c > 0; break; }
            case 2: { if (!n) break; unsigned at = (unsigned)g.draw(want.size()), i = (unsigned)g.index(n); g.trace("insert page ", i, " of ", n, " at ", at, " of ", want.size()); dst.GetPages().InsertDocumentPageAt(at, *s.doc, i); want.insert(want.begin() + at, { s.before, s.pages[i] }); outline += s.outline; copied = true; break; }
            case 3: { unsigned at = (unsigned)g.draw(want.size()); g.trace("new page at ", at); auto& p = dst.GetPages().CreatePageAt(at, PdfRect(0, 0, 77, 88)); auto now = std::make_shared<Objs>(snapshot(dst)); want.insert(want.begin() + at, { now, (int64_t)p.GetObject().GetIndirectReference().ObjectNumber() }); break; }
            default: { if (want.empty()) break; unsigned at = (unsigned)g.index(want.size()); g.trace("remove page ", at); dst.GetPages().RemovePageAt(at); want.erase(want.begin() + at); } }
        auto now = snapshot(dst); checkPages(g, now, root, want, "after copying"); CHECK_EQ("api count", dst.GetPages().GetCount(), (unsigned)want.size(), "GetCount");
        auto order = refgraph::pages(now, root); for (unsigned i = 0; i < want.size(); i++) { auto& p = dst.GetPages().GetPageAt(i); CHECK_EQ("api page", (int64_t)p.GetObject().GetIndirectReference().ObjectNumber(), order[i], "object of page " << i); CHECK_EQ("api index", p.GetIndex(), i, "index of page"); }
        S e, o = refgraph::outline(now, root, e); CHECK("outline links", e.empty(), e); CHECK_EQ("outline", o, outline, "outline after copying");
    }
    for (auto& s : srcs) { auto r = objsDiff(snapshot(*s.doc), *s.before); CHECK("source changed", r.empty(), r); }
    if (copied) g.nontrivial();
    if (g.coin()) { for (auto& s : srcs) vandalise(*s.doc); g.label("source changed afterwards"); }
    else if (g.coin()) { auto cp = snapshot(dst); vandalise(dst); for (auto& s : srcs) { auto r = objsDiff(snapshot(*s.doc), *s.before); CHECK("independent", r.empty(), "the source shows changes of the copy: " << r); } g.label("copy changed afterwards"); return; }
    if (g.coin()) srcs.clear();
    checkPages(g, snapshot(dst), root, want, "after the source changed");
    auto opt = genSave(g); S out = save(dst, opt); g.trace("save options ", saveStr(opt)); auto rr = readStrict(out); auto so = refgraph::ofStrict(rr.doc); checkPages(g, so, rr.doc.trailer.get("Root")->i, want, "in the saved file"); S e, o = refgraph::outline(so, rr.doc.trailer.get("Root")->i, e); CHECK("saved outline", e.empty() && o == outline, "outline of the saved file: " << o << " expected " << outline << " " << e);
    auto again = loadMm(out, 0); checkPages(g, snapshot(*again), rootOf(*again), want, "after loading it again");
}
PROP(C16, whole, 3000, 80000, 8) {
    Src1 s = source(g, 1); auto opt = genSave(g); std::unique_ptr<PdfMemDocument> copy(new PdfMemDocument(*s.doc)); auto now = snapshot(*copy); auto r = objsDiff(now, *s.before); CHECK("copy differs", r.empty(), r); CHECK_EQ("copy root", rootOf(*copy), s.root, "catalog");
    CHECK("copy trailer", diff(fromObj(copy->GetTrailer().GetObject()), fromObj(s.doc->GetTrailer().GetObject())).empty(), "trailer of the copy"); CHECK_EQ("copy pages", copy->GetPages().GetCount(), (unsigned)s.pages.size(), "pages"); if (s.pages.size()) g.nontrivial();
    switch (g.draw(2)) { case 0: vandalise(*s.doc); break; case 1: s.doc.reset(); break; default: { vandalise(*copy); auto d = objsDiff(snapshot(*s.doc), *s.before); CHECK("source shows changes", d.empty(), d); return; } }
    r = objsDiff(snapshot(*copy), *s.before); CHECK("copy shows changes", r.empty(), r); for (unsigned i = 0; i < s.pages.size(); i++) CHECK_EQ("copy page", (int64_t)copy->GetPages().GetPageAt(i).GetObject().GetIndirectReference().ObjectNumber(), s.pages[i], "page " << i);
    copy->GetPages().CreatePage(PdfRect(0, 0, 5, 5)); S out = save(*copy, opt); PdfMemDocument back; back.LoadFromBuffer(bufferview(out.data(), out.size()), "u"); auto so = snapshot(back); auto ps = refgraph::pages(so, rootOf(back)); CHECK_EQ("pages of the saved copy", ps.size(), s.pages.size() + 1, "pages");
    for (size_t i = 0; i + 1 < ps.size(); i++) { refgraph::Iso iso(*s.before, so); S d = iso.page(s.pages[i], ps[i], "page " + std::to_string(i)); CHECK("saved copy", d.empty(), d); }
}
// a page as a form XObject
static std::vector<S> tokens(const S& t) { std::vector<S> r; S cur; for (char c : t) { if (strchr("\0\t\n\f\r ", c)) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) r.push_back(cur); return r; }
PROP(C16, form, 3000, 80000, 8) {
    Src1 s = source(g, 1); if (s.pages.empty()) return; bool same = g.chance(1, 3); PdfMemDocument other; if (g.coin()) { refrich::enrich(g, other, 2, {}); (void)save(other); } PdfMemDocument& d = same ? *s.doc : other; unsigned i = (unsigned)g.index(s.pages.size()); bool trim = g.coin();
    auto& page = s.doc->GetPages().GetPageAt(i); auto box = page.GetMediaBox(); box.Intersect(page.GetCropBox()); if (trim) box.Intersect(page.GetTrimBox());
    auto form = d.CreateXObjectForm(PdfRect(0, 0, 1, 1)); form->FillFromPage(page, trim); g.nontrivial(); PdfReference fref = form->GetObject().GetIndirectReference(); int64_t fn = fref.ObjectNumber(); if (!same) { auto r = objsDiff(snapshot(*s.doc), *s.before); CHECK("source changed", r.empty(), r); if (g.coin()) { form.reset(); s.doc.reset(); } }
    auto check = [&](const Objs& now, int64_t fn, const char* when) {
        auto& f = now.at(fn); S want; auto c = refgraph::inherited(*s.before, s.pages[i], "Contents"); if (c && refgraph::deref(*s.before, *c).k == K::Arr) { for (auto& x : refgraph::deref(*s.before, *c).a) if (x.k == K::Ref && s.before->count(x.i)) want += s.before->at(x.i).data + "\n"; } else if (c && c->k == K::Ref) want = s.before->at(c->i).data;
        CHECK("form content", tokens(f.data) == tokens(want), when << ": content is " << pbt::show(f.data, 200) << " expected " << pbt::show(want, 200));
        auto bb = f.v.get("BBox"); double w[4] = { box.GetLeft(), box.GetBottom(), box.GetRight(), box.GetTop() }; bool ok = bb && bb->k == K::Arr && bb->a.size() == 4; for (int k = 0; ok && k < 4; k++) ok = std::fabs(bb->a[k].num() - w[k]) < 1e-4; CHECK("form box", ok, when << ": BBox is " << (bb ? show(*bb) : "absent"));
        auto rs = refgraph::inherited(*s.before, s.pages[i], "Resources"), got = f.v.get("Resources"); V a = rs ? refgraph::deref(*s.before, *rs) : V(), b = got ? refgraph::deref(now, *got) : V(); if (a.k == K::Null && b.k == K::Dict && b.m.empty()) a = b; refgraph::Iso iso(*s.before, now); S r = iso.value(a, b, "Resources"); CHECK("form resources", r.empty(), when << ": " << r);
        if (a.k == K::Dict) for (auto& e : a.m) if (e.second.k == K::Ref && b.get(e.first) && s.before->count(e.second.i)) { refgraph::Iso i2(*s.before, now); r = i2.object(e.second.i, b.get(e.first)->i, "Resources/" + e.first); CHECK("form resources", r.empty(), when << ": " << r); }
    };
    check(snapshot(d), fn, "at once"); auto& pg = d.GetPages().CreatePage(PdfRect(0, 0, 50, 50)); pg.GetOrCreateResources().AddResource("XObject", "Vf", fref);
    if (same && !s.bytes.empty()) { S out = save(d, genSave(g)); PdfMemDocument back; back.LoadFromBuffer(bufferview(out.data(), out.size()), "u"); check(snapshot(back), fn, "saved"); return; }
    S out = save(d, genSave(g)); auto so = refgraph::ofStrict(readStrict(out).doc); check(so, fn, "saved");
}
PROP(C16, misuse, 600, 8000, 8) {
    M m = model(g, 3, 4, 1); Layout l; S a = refdoc::write(g, m, l, false); auto d = loadMm(a, 0); int64_t root = rootOf(*d); auto was = snapshot(*d); auto ps = refgraph::pages(was, root); std::vector<Exp> want; auto before = std::make_shared<Objs>(was); for (auto p : ps) want.push_back({ before, p }); unsigned n = (unsigned)ps.size();
    if (g.coin()) { // out of range requests are refused and change nothing
        PdfMemDocument dst; dst.GetPages().CreatePage(PdfRect(0, 0, 4, 4)); unsigned at = (unsigned)g.draw(n + 2), c = n + 1 - std::min(n, at) + (unsigned)g.draw(2); bool threw = false; g.trace("pages ", at, "+", c, " of ", n); try { dst.GetPages().AppendDocumentPages(*d, at, c); } catch (PdfError&) { threw = true; } g.nontrivial(); g.label("out of range");
        CHECK("range", threw, "pages " << at << "+" << c << " of " << n << " are accepted"); CHECK_EQ("range pages", dst.GetPages().GetCount(), 1u, "pages afterwards"); return; }
    d->GetPages().AppendDocumentPages(*d); for (auto p : ps) want.push_back({ before, p }); if (n) g.nontrivial(); g.label("document appended to itself"); S e, o = refgraph::outline(was, root, e); auto now = snapshot(*d); checkPages(g, now, root, want, "appended to itself"); S o2 = refgraph::outline(now, root, e); CHECK("self outline", e.empty() && o2 == o + o, o2 << " " << e);
}
