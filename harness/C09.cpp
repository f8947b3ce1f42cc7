// C09: files with any conforming layout load with the content they describe.
#include "refdoc.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "more than one revision, a cross-reference stream or object streams, and at least 3 objects";
    pbt::g_assumptions = "files start with the header and end with the end of file marker; widths of cross-reference stream fields are at most 8 bytes\nfiles are unencrypted (C13)\nthe generated files are checked by the independent strict reader on every case";
} } init;
static Opt opts(pbt::Src& g) { Opt o; o.extra = 1 + g.size(14); o.gens = g.chance(1, 3); o.sparse = g.chance(1, 3); o.info = g.chance(4, 5); o.indirectLength = g.coin(); return o; }
static std::string cmp(PdfMemDocument& d, const M& m, const History& h, const std::map<int64_t, Snap>& want) {
    CmpOpt c; c.ignore = h.helpers; c.realTol = 1e-9; c.ignoreFilter = c.ignoreLength = false; auto r = compare(snapshot(d), want, c); if (!r.empty()) return r;
    V t = fromObj(d.GetTrailer().GetObject()); for (auto k : { "Root", "Info" }) { auto a = t.get(k), b = m.d.trailer.get(k); if ((a != nullptr) != (b != nullptr) || (a && !diff(*a, *b).empty())) return std::string("trailer /") + k; }
    return "";
}
PROP(C09, layouts, 5000, 200000, 20) {
    Opt o = opts(g); M m = gen(g, o); bool noise = g.coin(); unsigned revs = 1 + (unsigned)g.weighted({ 3, 3, 2, 1 }); History h = history(g, m, o, revs, noise); g.trace(str(m)); g.trace(pbt::show(h.bytes, 5000));
    auto want = snap(m);
    // the file says what the model says (self-check of the generator)
    { ReadResult r; r = readStrict(h.bytes); CmpOpt c; c.ignore = h.helpers; c.realTol = 1e-9; auto s = compare(snap(r.doc), want, c); CHECK("selfcheck", s.empty(), "generator: " << s); }
    unsigned how = (unsigned)g.draw(2); g.label(how == 0 ? "from memory" : how == 1 ? "from a file" : "from a stream"); std::unique_ptr<PdfMemDocument> d;
    try { d = loadMm(h.bytes, how); } catch (PdfError& e) { pbt::fail("load-failed", std::string("conforming file cannot be loaded: ") + e.what()); }
    auto ns = m.nums();
    // random access before everything is read
    for (unsigned i = g.size(6); i > 0; i--) {
        auto n = g.pick(ns); auto& ob = m.d.objs[n]; auto p = d->GetObjects().GetObject(PdfReference((uint32_t)n, (uint16_t)ob.gen)); CHECK("missing", p != nullptr, "object " << n << " " << ob.gen << " R is missing");
        CHECK("stream", p->HasStream() == ob.hasStream, "object " << n << " stream"); if (ob.hasStream) { auto s = streamData(*p); CHECK("stream-data", s == m.data[n], "object " << n << ": " << pbt::show(s) << " instead of " << pbt::show(m.data[n])); }
        auto r = diff(fromObj(*p), ob.v, { 1e-9 }); CHECK("value", r.empty(), "object " << n << ": " << r);
        if (g.chance(1, 4) && dynamic_cast<PdfParserObject*>(p)) { d->FreeObjectMemory(PdfReference((uint32_t)n, (uint16_t)ob.gen)); g.label("object memory freed"); }
    }
    { auto r = cmp(*d, m, h, want); CHECK("content", r.empty(), "loaded document differs from the file: " << r); }
    CHECK("pages", d->GetPages().GetCount() == [&] { unsigned n = 0; for (auto& x : m.d.objs) { auto t = x.second.v.get("Type"); n += t && t->s == "Page"; } return n; }(), "page count " << d->GetPages().GetCount());
    { auto v = (PdfVersion)((m.d.version[0] - '0') * 10 + m.d.version[2] - '0'); CHECK("version", d->GetMetadata().GetPdfVersion() == v, "version " << (int)d->GetMetadata().GetPdfVersion() << " of " << m.d.version); }
    for (int64_t n = 1; n <= h.size; n++) if (!m.d.objs.count(n) && !h.helpers.count(n)) for (unsigned gen : { 0u, 1u, 2u }) CHECK("ghost", d->GetObjects().GetObject(PdfReference((uint32_t)n, (uint16_t)gen)) == nullptr, "object " << n << " " << gen << " R exists");
    { auto r = cmp(*d, m, h, want); CHECK("content-again", r.empty(), "second reading differs: " << r); }
    bool modern = false; for (auto& l : h.layouts) { g.label(l.xref == 0 ? "table" : l.xref == 1 ? "xref stream" : "hybrid"); if (l.objStreams) g.label("object streams"); modern |= l.xref != 0; } if (revs > 1) g.label("several revisions");
    if ((revs > 1 || modern) && m.d.objs.size() >= 5) g.nontrivial();
}
// the same, all objects read at once by the parser
PROP(C09, eager, 2500, 80000, 20) {
    Opt o = opts(g); M m = gen(g, o); unsigned revs = 1 + (unsigned)g.weighted({ 3, 3, 2, 1 }); History h = history(g, m, o, revs, g.coin()); g.trace(str(m)); g.trace(pbt::show(h.bytes, 5000)); auto want = snap(m);
    PdfMemDocument doc; auto& list = doc.GetObjects(); list.Clear(); SpanStreamDevice dev(h.bytes.data(), h.bytes.size()); PdfParser p(list);
    try { p.Parse(dev, false); } catch (PdfError& e) { pbt::fail("load-failed", std::string("conforming file cannot be parsed: ") + e.what()); }
    CmpOpt c; c.ignore = h.helpers; c.realTol = 1e-9; c.ignoreFilter = c.ignoreLength = false; auto r = compare(snapshot(doc), want, c); CHECK("content", r.empty(), "parsed objects differ from the file: " << r);
    bool modern = false; for (auto& l : h.layouts) modern |= l.xref != 0; if ((revs > 1 || modern) && m.d.objs.size() >= 5) g.nontrivial();
}
