// C11: garbage collection.
#include "refdoc.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the graph has both unreachable and reachable objects that only nested or chained references keep";
    pbt::g_assumptions = "reachability is computed by an independent walk over the values of the objects, starting from the trailer\nobject streams and cross-reference streams of loaded files are not compared";
} } init;
typedef std::map<int64_t, Snap> S;
static std::set<int64_t> reach(const S& s, const V& trailer) {     // honours generations
    std::set<int64_t> seen; std::vector<V> todo; refsOf(trailer, todo);
    while (!todo.empty()) { V r = todo.back(); todo.pop_back(); auto it = s.find(r.i); if (it == s.end() || it->second.gen != r.gen || !seen.insert(r.i).second) continue; refsOf(it->second.v, todo); }
    return seen;
}
static void collect(PdfMemDocument& doc) { doc.CollectGarbage(); }
// rewires the model at random: cycles, sharing, wrong generations, references in stream dictionaries, deep nesting
static void rewire(pbt::Src& g, PdfMemDocument& doc, unsigned k) {
    std::vector<PdfReference> rs; std::set<uint32_t> lens; for (auto* o : doc.GetObjects()) if (o->IsDictionary()) { auto l = o->GetDictionary().GetKey("Length"); if (l && l->IsReference()) lens.insert(l->GetReference().ObjectNumber()); }
    for (auto* o : doc.GetObjects()) if (!lens.count(o->GetIndirectReference().ObjectNumber())) rs.push_back(o->GetIndirectReference());
    for (unsigned i = 0; i < k; i++) {
        auto from = g.pick(rs), to = g.pick(rs); auto* o = doc.GetObjects().GetObject(from); if (!o) continue; PdfReference t = to; if (g.chance(1, 6)) { t = PdfReference(to.ObjectNumber(), (uint16_t)(to.GenerationNumber() + 1)); g.label("reference with another generation"); }
        PdfObject v(t); unsigned depth = g.size(5); for (unsigned d = 0; d < depth; d++) { if (g.coin()) { PdfArray a; a.Add(PdfObject((int64_t)d)); a.Add(v); v = PdfObject(a); } else { PdfDictionary x; x.AddKey("VfIn", v); v = PdfObject(x); } }
        if (g.chance(1, 12)) { doc.GetTrailer().GetDictionary().AddKey(nameOf("VfLink" + std::to_string(i)), v); g.label("reference in the trailer"); } else if (o->IsDictionary()) o->GetDictionary().AddKey(nameOf("VfLink" + std::to_string(i)), v); else if (o->IsArray()) o->GetArray().Add(v); else *o = v; if (o->HasStream()) g.label("reference in a stream dictionary"); if (from == to) g.label("self reference"); g.trace("link ", from.ToString(), " -> ", t.ToString(), " depth ", depth);
    }
}
static void run(pbt::Src& g, PdfMemDocument& doc, std::set<int64_t> keepAlso) {
    S before = snapshot(doc); V trailer = fromObj(doc.GetTrailer().GetObject()); auto live = reach(before, trailer); bool dead = false; for (auto& x : before) dead |= !live.count(x.first); if (dead && live.size() > 3) g.nontrivial();
    for (auto& x : before) { auto t = x.second.v.get("Type"); if (x.second.hasStream && t && (t->s == "ObjStm" || t->s == "XRef")) keepAlso.insert(x.first); }
    std::map<int64_t, const PdfObject*> at; for (auto* o : doc.GetObjects()) at[o->GetIndirectReference().ObjectNumber()] = o;
    CmpOpt c; c.ignore = keepAlso; c.realTol = 0; c.ignoreLength = c.ignoreFilter = false;
    S want = only(before, live); unsigned how = (unsigned)g.draw(3); g.trace("collect ", how);
    switch (how) {
        case 0: collect(doc); break;
        case 1: collect(doc); collect(doc); break;
        case 2: { c.ignoreLength = c.ignoreFilter = true; c.realTol = 1.1e-6; PdfSaveOptions o = genSave(g) | PdfSaveOptions::NoModifyDateUpdate; bool gc = !has(o, PdfSaveOptions::NoCollectGarbage); if (!gc) want = before; std::string out = save(doc, o); if (gc && g.coin()) { S file = snap(readStrict(out).doc); for (auto& x : file) { auto t = x.second.v.get("Type"); if (x.second.hasStream && t && (t->s == "ObjStm" || t->s == "XRef")) c.ignore.insert(x.first); } auto d = compare(file, want, c); CHECK("saved", d.empty(), "the saved file: " << d); } break; }
        default: { collect(doc); rewire(g, doc, 1 + g.size(4)); before = snapshot(doc); trailer = fromObj(doc.GetTrailer().GetObject()); live = reach(before, trailer); want = only(before, live); at.clear(); for (auto* o : doc.GetObjects()) at[o->GetIndirectReference().ObjectNumber()] = o; collect(doc); g.label("collected again after changes"); }
    }
    S after = snapshot(doc); auto d = compare(after, want, c); CHECK("kept", d.empty(), "after collecting: " << d << " (reachable: " << live.size() << " of " << before.size() << ")");
    for (auto* o : doc.GetObjects()) { auto n = o->GetIndirectReference().ObjectNumber(); CHECK("identity", at[n] == o, "object " << n << " is another object now"); }
    // the numbers that were freed can be used again, the others not
    std::set<std::pair<uint32_t, uint32_t>> ever; for (auto& x : before) ever.insert({ (uint32_t)x.first, x.second.gen }); for (unsigned i = 0; i < 3; i++) { auto r = doc.GetObjects().CreateDictionaryObject().GetIndirectReference(); CHECK("number", !ever.count({ r.ObjectNumber(), r.GenerationNumber() }) , "the reference " << r.ToString() << " of an object that existed is used again"); CHECK("in-use", !after.count(r.ObjectNumber()), "the number of " << r.ToString() << " is in use"); }
}
PROP(C11, built, 20000, 300000, 20) {
    Opt o; o.extra = 1 + g.size(12); o.sparse = false; o.values.depth = 4; M m = gen(g, o); PdfMemDocument doc; auto b = buildMm(g, m, doc); (void)b; g.trace(str(m)); rewire(g, doc, g.size(10)); if (g.chance(1, 4)) { std::vector<PdfReference> rs; for (auto& x : b.at) if (!b.own.count(x.first)) rs.push_back(x.second); if (!rs.empty()) doc.GetObjects().RemoveObject(g.pick(rs)); } run(g, doc, {});
}
PROP(C11, loaded, 15000, 250000, 20) {
    Opt o; o.extra = 2 + g.size(12); o.gens = g.coin(); o.sparse = g.chance(1, 3); o.indirectLength = g.chance(1, 3); M m = gen(g, o); History h = history(g, m, o, 1 + (unsigned)g.draw(2), false); g.trace(str(m)); auto doc = loadMm(h.bytes, (unsigned)g.draw(2));
    if (g.coin()) { // nothing was read yet
        auto live = reachable(m.d); collect(*doc); std::set<int64_t> have; for (auto* x : doc->GetObjects()) have.insert(x->GetIndirectReference().ObjectNumber());
        S s = snap(m); live = reach(s, m.d.trailer); for (auto n : live) CHECK("lost", have.count(n), "object " << n << " is reachable and was removed"); for (auto n : have) CHECK("kept-garbage", live.count(n) || h.helpers.count(n), "object " << n << " is unreachable and was kept");
        CmpOpt c; c.ignore = h.helpers; c.realTol = 1.1e-6; auto d = compare(snapshot(*doc), only(s, live), c); CHECK("kept", d.empty(), "after collecting in a file just loaded: " << d); g.label("nothing read before"); if (live.size() > 3 && s.size() > live.size()) g.nontrivial();
        return; }
    rewire(g, *doc, g.size(6)); run(g, *doc, h.helpers);
}
PROP(C11, deep, 120, 3000, 60) {   // long chains and deep nesting
    PdfMemDocument doc; unsigned n = 1000 * (1 + (unsigned)g.draw(60)); bool viaArray = g.coin(), cyc = g.coin(), strm = g.chance(1, 4); std::vector<PdfObject*> os; for (unsigned i = 0; i < n; i++) os.push_back(viaArray ? &doc.GetObjects().CreateArrayObject() : &doc.GetObjects().CreateDictionaryObject());
    unsigned cut = (unsigned)g.draw(n - 1); std::vector<unsigned> perm(n); for (unsigned i = 0; i < n; i++) perm[i] = i; unsigned mode = (unsigned)g.draw(2); if (mode == 1) std::reverse(perm.begin(), perm.end()); if (mode == 2) for (unsigned i = 0; i < n; i++) perm[i] = (unsigned)(((uint64_t)i * 7919) % n); if (mode == 2) { std::vector<bool> s(n); for (auto p : perm) s[p] = true; for (unsigned i = 0; i < n; i++) if (!s[i]) { for (unsigned k = 0; k < n; k++) perm[k] = k; break; } }
    auto link = [&](unsigned a, unsigned b) { PdfObject r(os[b]->GetIndirectReference()); if (viaArray) os[a]->GetArray().Add(r); else os[a]->GetDictionary().AddKey("Next", r); };
    for (unsigned i = 0; i + 1 < n; i++) if (i != cut) link(perm[i], perm[i + 1]); if (cyc) link(perm[n - 1], perm[cut + 1 < n ? cut + 1 : 0]); if (strm && !viaArray) os[perm[0]]->GetOrCreateStream().SetData(bufferview("x", (size_t)1));
    doc.GetCatalog().GetDictionary().AddKey("VfChain", PdfObject(os[perm[0]]->GetIndirectReference())); unsigned keep = cut + 1 > n ? n : cut + 1; if (cut >= n - 1) keep = n; unsigned base = doc.GetObjects().GetSize() - n; g.trace("chain of ", n, " cut after ", cut, viaArray ? " arrays" : " dictionaries", cyc ? " cyclic" : "", " order ", mode); g.nontrivial();
    if (cyc && cut + 1 >= n) keep = n;
    collect(doc); CHECK_EQ("count", doc.GetObjects().GetSize(), keep + base, "objects left"); for (unsigned i = 0; i < n; i++) if (i < keep) CHECK("lost", doc.GetObjects().GetObject(os[perm[i]]->GetIndirectReference()) == os[perm[i]], "object " << i << " of the chain was removed"); 
}
