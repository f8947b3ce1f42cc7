// C07: saving a document and loading it again preserves its object graph.
#include "refdoc.h"
#include <unistd.h>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the document has at least 3 objects beyond the catalog, the page tree and the information dictionary, one of them with a stream or a reference";
    pbt::g_assumptions = "reals are compared to 5e-7 (the library writes six decimals)\nwhether stream data is compressed in the file is not compared, only its content\nno encryption (C13), no fonts (C20-C22)";
} } init;
static std::unique_ptr<PdfMemDocument> load(pbt::Src& g, const std::string& bytes, unsigned how) {
    auto d = std::make_unique<PdfMemDocument>();
    if (how == 1) { auto p = scratch("in.pdf"); spit(p, bytes); d->Load(p); }
    else d->LoadFromBuffer(bufferview(bytes.data(), bytes.size()));
    (void)g; return d;
}
static void dropMod(std::map<int64_t, Snap>& s, const V& trailer) { auto i = trailer.get("Info"); if (!i || i->k != K::Ref) return; auto it = s.find(i->i); if (it != s.end()) it->second.v.m.erase("ModDate"); }
static V noMod(V t) { auto it = t.m.find("Info"); if (it != t.m.end() && it->second.k == K::Dict) it->second.m.erase("ModDate"); return t; }   // a direct information dictionary
static bool nontrivial(const std::map<int64_t, Snap>& s) { unsigned n = 0; bool rich = false; for (auto& x : s) { const V* t = x.second.v.get("Type"); if (t && (t->s == "Catalog" || t->s == "Pages")) continue; n++; std::vector<V> r; refsOf(x.second.v, r); rich = rich || x.second.hasStream || !r.empty(); } return n >= 3 && rich; }
// saves `doc`, checks the result against the document's own state
static void check(pbt::Src& g, PdfMemDocument& doc, bool loaded, const std::set<int64_t>& helpers = {}) {
    unsigned cycles = 1 + (unsigned)g.draw(1); std::unique_ptr<PdfMemDocument> cur; PdfMemDocument* d = &doc; std::vector<std::string> keep;
    PdfSaveOptions lastOpt = PdfSaveOptions::None;
    for (unsigned c = 0; c < cycles; c++) {
        PdfSaveOptions o = genSave(g); bool toFile = g.chance(1, 4); lastOpt = o; g.trace("save ", saveStr(o), toFile ? " to a file" : "");
        if (g.chance(1, 3)) { static const PdfVersion vs[] = { PdfVersion::V1_0, PdfVersion::V1_1, PdfVersion::V1_2, PdfVersion::V1_3, PdfVersion::V1_4, PdfVersion::V1_5, PdfVersion::V1_6, PdfVersion::V1_7 }; unsigned v = (unsigned)g.draw(7); const PdfObject* cv = d->GetCatalog().GetDictionary().FindKey("Version"); if (!cv) d->GetMetadata().SetPdfVersion(vs[v]); }
        PdfVersion ver = d->GetMetadata().GetPdfVersion();
        auto before = snapshot(*d); V trailer = fromObj(d->GetTrailer().GetObject());
        std::string bytes;
        if (toFile) { auto p = scratch("out.pdf"); spit(p, "previous content of the file that must not survive, longer than nothing"); d->Save(p, o); bytes = slurp(p); unlink(p.c_str()); }
        else bytes = save(*d, o);
        // the document in memory
        V trailer2 = fromObj(d->GetTrailer().GetObject()); auto after = snapshot(*d); bool mod = !has(o, PdfSaveOptions::NoModifyDateUpdate), gc = !has(o, PdfSaveOptions::NoCollectGarbage);
        auto want = gc ? only(before, reachable(before, trailer)) : before; CmpOpt co; co.ignore = helpers;
        V tw = trailer; if (mod) { dropMod(want, trailer); dropMod(after, trailer2); if (!trailer.get("Info") && trailer2.get("Info")) { auto id = trailer2.get("Info")->i; co.ignore.insert(id); tw.m["Info"] = *trailer2.get("Info"); } }
        if (mod) { trailer2 = noMod(trailer2); tw = noMod(tw); } { auto r = diff(trailer2, tw); CHECK("memory-trailer", r.empty(), "trailer changed by saving with " << saveStr(o) << ": " << r); }
        { CmpOpt x = co; x.realTol = 0; auto r = compare(after, want, x); CHECK("memory-changed", r.empty(), "document changed by saving with " << saveStr(o) << ": " << r); }
        CHECK("memory-version", d->GetMetadata().GetPdfVersion() == ver, "version changed by saving");
        // the reloaded document
        keep.push_back(bytes); std::unique_ptr<PdfMemDocument> n;
        try { n = load(g, keep.back(), (unsigned)g.draw(1)); } catch (PdfError& e) { pbt::fail("reload-failed", std::string("saved file cannot be loaded: ") + e.what()); }
        auto got = snapshot(*n); V t3 = fromObj(n->GetTrailer().GetObject()); if (mod) { dropMod(got, t3); t3 = noMod(t3); }
        for (auto& x : want) if (x.second.gen == 65535) co.ignore.insert(x.first);
        { auto r = compare(got, want, co); CHECK("reload", r.empty(), "reloaded document differs (" << saveStr(o) << "): " << r); }
        for (auto k : { "Root", "Info" }) { const V* a = t3.get(k); const V* b = tw.get(k); CHECK("reload-trailer", (!a && !b) || (a && b && diff(*a, *b).empty()), k << " of the trailer: " << (a ? ref::show(*a) : "none") << " was " << (b ? ref::show(*b) : "none")); }
        { PdfVersion w = ver; CHECK("reload-version", n->GetMetadata().GetPdfVersion() == w, "version " << (int)n->GetMetadata().GetPdfVersion() << " saved " << (int)w); }
        g.label(gc ? "with collection" : "without collection"); if (nontrivial(want)) g.nontrivial();
        cur = std::move(n); d = cur.get();
    }
    // fixpoint: saving the reloaded document again gives the same file
    PdfSaveOptions o = lastOpt | PdfSaveOptions::NoModifyDateUpdate; std::string a = save(*d, o); keep.push_back(a); auto d2 = load(g, keep.back(), 0); std::string b = save(*d2, o); (void)loaded;
    CHECK("fixpoint", a == b, "saving the reloaded document gives another file: " << a.size() << " and " << b.size() << " bytes, first difference at " << (std::mismatch(a.begin(), a.begin() + std::min(a.size(), b.size()), b.begin()).first - a.begin()) << "\n" << pbt::show(a, 3000) << "\n" << pbt::show(b, 3000));
}
static Opt docOpt(pbt::Src& g) { Opt o; o.values.depth = 3; o.values.hugeReals = false; o.values.dictNulls = false; o.extra = 1 + g.size(12); return o; }
PROP(C07, built, 6000, 200000, 20) {
    Opt o = docOpt(g); M m = gen(g, o); g.trace(str(m));
    PdfMemDocument doc; auto b = buildMm(g, m, doc); auto& at = b.at; auto& own = b.own;
    // the document holds what was put in it
    auto s = snapshot(doc); for (auto& x : m.d.objs) if (!own.count(x.first)) { Snap w; w.v = mapRefs(x.second.v, b); w.hasStream = x.second.hasStream; if (w.hasStream) w.data = m.data[x.first]; CmpOpt c; c.realTol = 0; c.exactSet = false; auto r = compare(s, { { (int64_t)at[x.first].ObjectNumber(), w } }, c); CHECK("built", r.empty(), r); }
    // removal of some objects
    if (g.chance(1, 3)) { auto ns = m.nums(); unsigned k = 1 + g.size(3); for (unsigned i = 0; i < k; i++) { auto n = g.pick(ns); if (!own.count(n)) { doc.GetObjects().RemoveObject(at[n]); g.trace("remove ", at[n].ToString()); } } g.label("with removals"); }
    check(g, doc, false);
}
PROP(C07, loaded, 6000, 200000, 20) {
    Opt o = docOpt(g); o.gens = g.chance(1, 3); o.sparse = g.chance(1, 3); o.info = g.chance(4, 5); M m = gen(g, o); Layout l; l.xref = (int)g.draw(2); l.objStreams = l.xref && g.coin();
    if (g.chance(1, 6)) { static const char* vs[] = { "1.3", "1.4", "1.5", "1.6", "1.7" }; const char* v = vs[g.draw(4)]; if (m.d.version <= v) m.d.objs[m.root()].v.m["Version"] = V::name(v); }
    if (m.d.trailer.get("Info") && g.chance(1, 6)) { auto n = m.d.trailer.get("Info")->i; bool used = false; for (auto& x : m.d.objs) { std::vector<V> rs; refsOf(x.second.v, rs); for (auto& r : rs) used |= r.i == n; } if (!used) { m.d.trailer.m["Info"] = m.d.objs[n].v; m.d.objs.erase(n); g.label("direct information dictionary"); } }
    std::set<int64_t> helpers; std::string bytes = write(g, m, l, g.coin(), &helpers); g.trace(str(m)); g.trace(pbt::show(bytes, 3000));
    auto doc = load(g, bytes, (unsigned)g.draw(1));
    auto s = snapshot(*doc); CmpOpt c; c.ignore = helpers; c.realTol = 1e-9; auto r = compare(s, snap(m), c); CHECK("loaded", r.empty(), "loaded document differs from the file: " << r);
    g.label(l.xref == 0 ? "table" : l.xref == 1 ? "xref stream" : "hybrid");
    check(g, *doc, true, helpers);
}
