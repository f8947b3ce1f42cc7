// C08: saved files conform to the rules of the file structure.
#include "refrich.h"
#include <unistd.h>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the file was saved after edits that free object numbers, or was updated incrementally, or holds pages drawn with fonts or images";
    pbt::g_assumptions = "the strict reader implements the file structure rules of ISO 32000-1 chapter 7.5 without any repair\nstring and stream contents of encrypted files are checked in C13";
} } init;
// the free entries form one list that starts at and returns to entry 0
static void freeList(const ReadResult& r, const char* what) {
    std::map<int64_t, Section::E> all; for (auto& s : r.sections) { if (s.trailer.get("XRefStm")) return; for (auto& e : s.entries) all.insert(e); }
    std::set<int64_t> seen; int64_t at = 0; do { auto it = all.find(at); CHECK("free-list", it != all.end() && it->second.type == 0, what << ": the free list leads to " << at << " which is not free"); CHECK("free-list", seen.insert(at).second, what << ": the free list has a loop at " << at); at = it->second.a; } while (at != 0);
    for (auto& e : all) if (e.second.type == 0 && !seen.count(e.first)) CHECK("free-list", e.second.a == 0 && e.second.b == 65535, what << ": free entry " << e.first << " is not in the list of free entries");
}
// the file read strictly, compared with what the document holds
static ReadResult check(pbt::Src& g, PdfMemDocument& doc, const std::string& bytes, const char* what, bool gc, std::set<int64_t> ignore = {}) {
    ReadResult r; r = readStrict(bytes); (void)g;
    { auto id = r.doc.trailer.get("ID"); CHECK("id", id && id->k == K::Arr && id->a.size() == 2 && id->a[0].k == K::Str && id->a[1].k == K::Str && !id->a[0].s.empty() && !id->a[1].s.empty(), what << ": /ID is " << (id ? ref::show(*id) : "missing")); }
    auto size = r.doc.trailer.get("Size"); int64_t mx = 0; for (auto& s : r.sections) for (auto& e : s.entries) mx = std::max(mx, e.first); CHECK("size", size && size->k == K::Int && size->i == mx + 1, what << ": /Size is " << (size ? ref::show(*size) : "missing") << ", the highest number is " << mx);
    CHECK("header", bytes.compare(0, 5, "%PDF-") == 0 && bytes.size() > 12 && bytes[8] == '\n' && bytes[9] == '%' && (bytes[10] & 0x80), what << ": header " << pbt::show(bytes.substr(0, 16)));
    freeList(r, what);
    auto enc = r.doc.trailer.get("Encrypt"); if (enc) return r;
    std::map<int64_t, Snap> got = snap(r.doc); auto have = snapshot(doc); for (auto& x : got) { auto t = x.second.v.get("Type"); if (x.second.hasStream && t && t->s == "XRef") ignore.insert(x.first); } for (auto& x : have) { auto t = x.second.v.get("Type"); if (t && t->s == "XRef") ignore.insert(x.first); }
    CmpOpt c; c.ignore = ignore; c.realTol = 1.1e-6; auto d = compare(got, have, c); CHECK("content", d.empty(), what << ": the file read strictly differs from the document: " << d);
    if (gc) { auto all = snap(r.doc); std::vector<V> fonts; for (auto& x : r.doc.objs) { auto t = x.second.v.get("Type"); if (t && t->s == "Font") fonts.push_back(V::refTo(x.first, x.second.gen)); } /* imported fonts are kept for later use */ auto seen = reachable(all, V::arr({ r.doc.trailer, V::arr(fonts) })); for (auto& x : r.doc.objs) CHECK("unreachable", seen.count(x.first) || ignore.count(x.first) || (x.second.v.get("Type") && x.second.v.get("Type")->s == "ObjStm"), what << ": object " << x.first << " is not reachable: " << ref::show(x.second.v)); }
    for (auto& x : r.doc.objs) { if (!x.second.hasStream) continue; auto t = x.second.v.get("Length"); CHECK("length", t && t->k == K::Int, what << ": /Length of a written stream is not direct"); }
    return r;
}
static void updates(pbt::Src& g, std::unique_ptr<PdfMemDocument>& doc, std::string& bytes, std::vector<std::unique_ptr<std::string>>& keep, const refrich::Opt& ro) {
    unsigned n = g.size(3);
    for (unsigned i = 0; i < n; i++) {
        keep.push_back(std::make_unique<std::string>(bytes)); doc = loadMm(*keep.back(), (unsigned)g.draw(2)); unsigned k = g.size(5);
        refrich::enrich(g, *doc, k, ro); auto edits = g.size(4); std::vector<PdfReference> rs; for (auto* o : doc->GetObjects()) rs.push_back(o->GetIndirectReference());
        std::vector<PdfReference> own; for (unsigned j = 0; j < edits; j++) switch (g.draw(2)) { case 0: own.push_back(doc->GetObjects().CreateDictionaryObject("Vf").GetIndirectReference()); if (g.coin()) doc->GetCatalog().GetDictionary().AddKey(nameOf("VfU" + std::to_string(j)), PdfObject(own.back())); break; case 1: if (!own.empty()) { doc->GetObjects().RemoveObject(own.back()); own.pop_back(); } break; default: { auto r = g.pick(rs); auto o = doc->GetObjects().GetObject(r); if (o && o->IsDictionary()) o->GetDictionary().AddKey("VfEdit", PdfObject((int64_t)j)); } }
        PdfSaveOptions so = genSave(g); std::string out = bytes; StringStreamDevice dev(out); doc->SaveUpdate(dev, so); g.trace("update ", saveStr(so), " appended ", pbt::show(out.substr(std::min(out.size(), bytes.size())), 1500));
        CHECK("prefix", out.compare(0, bytes.size(), bytes) == 0, "update changed earlier bytes"); auto r = check(g, *doc, out, "incremental update", false); bytes = out; (void)r; g.nontrivial(); g.label("incremental update");
    }
}
PROP(C08, features, 2000, 25000, 60) {
    auto doc = std::make_unique<PdfMemDocument>(); refrich::Opt ro; unsigned ops = 1 + g.size(14); refrich::enrich(g, *doc, ops, ro);
    PdfSaveOptions so = genSave(g); g.trace("save ", saveStr(so)); if (g.chance(1, 3)) doc->GetMetadata().SetPdfVersion(g.pick({ PdfVersion::V1_3, PdfVersion::V1_5, PdfVersion::V1_7 }));
    std::string bytes = save(*doc, so); g.trace(pbt::show(bytes, 3000)); check(g, *doc, bytes, "saved file", !has(so, PdfSaveOptions::NoCollectGarbage)); if (ops > 3) g.nontrivial();
    std::vector<std::unique_ptr<std::string>> keep; updates(g, doc, bytes, keep, ro);
}
PROP(C08, graphs, 12000, 150000, 30) {
    Opt o; o.extra = 1 + g.size(10); o.gens = g.chance(1, 3); o.sparse = g.chance(1, 3); o.info = g.chance(4, 5); M m = gen(g, o); std::unique_ptr<PdfMemDocument> doc; std::vector<std::unique_ptr<std::string>> keep; std::set<int64_t> ign; bool xs = false;
    if (g.coin()) { doc = std::make_unique<PdfMemDocument>(); auto b = buildMm(g, m, *doc); unsigned k = g.size(6); std::vector<PdfReference> rs; for (auto& x : b.at) if (!b.own.count(x.first)) rs.push_back(x.second); for (unsigned i = 0; i < k; i++) switch (g.draw(1)) { case 0: if (!rs.empty()) { doc->GetObjects().RemoveObject(g.pick(rs)); g.nontrivial(); g.label("freed numbers"); } break; default: (void)doc->GetObjects().CreateArrayObject(); } }
    else { if (o.info && g.chance(1, 8)) { o.info = false; m.d.trailer.m["Info"] = V::refTo(m.max() + 5000, 0); g.label("dangling Info"); } History h = history(g, m, o, 1 + (unsigned)g.draw(2), g.coin()); keep.push_back(std::make_unique<std::string>(h.bytes)); g.trace(pbt::show(h.bytes, 3000)); doc = loadMm(*keep.back(), (unsigned)g.draw(2)); xs = true; unsigned k = g.size(4); std::vector<int64_t> ns; for (auto n : m.nums()) { auto t = m.d.objs[n].v.get("Type"); bool len = false; for (auto& y : m.d.objs) if (y.second.hasStream) { auto l = y.second.v.get("Length"); len |= l && l->k == K::Ref && l->i == n; } if (n != m.root() && !(t && t->k == K::Name) && !len) ns.push_back(n); } for (unsigned i = 0; i < k && !ns.empty(); i++) { auto n = g.pick(ns); if (m.d.trailer.get("Info") && m.d.trailer.get("Info")->i == n) continue; if (doc->GetObjects().RemoveObject(PdfReference((uint32_t)n, (uint16_t)m.d.objs[n].gen))) { g.nontrivial(); g.label("freed numbers"); } } }
    (void)xs; PdfSaveOptions so = genSave(g); g.trace("save ", saveStr(so)); std::string bytes; if (g.chance(1, 8)) { auto p = scratch("o.pdf"); doc->Save(p, so); bytes = slurp(p); unlink(p.c_str()); } else bytes = save(*doc, so);
    g.trace(pbt::show(bytes, 3000)); check(g, *doc, bytes, "saved file", !has(so, PdfSaveOptions::NoCollectGarbage)); refrich::Opt ro; ro.fonts = ro.images = ro.draw = false; updates(g, doc, bytes, keep, ro);
}
PROP(C08, encrypted, 1500, 20000, 60) {
    auto doc = std::make_unique<PdfMemDocument>(); refrich::Opt ro; ro.fonts = g.chance(1, 4); refrich::enrich(g, *doc, 1 + g.size(8), ro); auto alg = g.pick({ PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3 });
    doc->SetEncrypted("user", "owner", PdfPermissions::Default, alg, alg == PdfEncryptAlgorithm::RC4V1 ? PdfKeyLength::L40 : alg == PdfEncryptAlgorithm::AESV3 ? PdfKeyLength::L256 : PdfKeyLength::L128); g.trace("algorithm ", (int)alg);
    PdfSaveOptions so = genSave(g); std::string bytes = save(*doc, so); g.trace(pbt::show(bytes, 3000)); auto r = check(g, *doc, bytes, "encrypted file", true); CHECK("encrypt", r.doc.trailer.get("Encrypt") != nullptr, "no /Encrypt in the trailer"); g.nontrivial();
    auto e = resolve(r.doc, *r.doc.trailer.get("Encrypt")); CHECK("encrypt", e.k == K::Dict && e.get("Filter") && e.get("Filter")->s == "Standard", "/Encrypt is " << ref::show(e));
}
