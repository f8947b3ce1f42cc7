// C12: object numbering as a state machine.
#include "refdoc.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "at least three removals followed by allocations, or a reload between them";
    pbt::g_assumptions = "objects are identified by a serial number stored in them\nnumbers whose generation reached 65535 are never used again (ISO 32000-1, 7.5.4)";
} } init;
struct Live { uint32_t gen; int64_t serial; PdfObject* at; };
struct Model {
    std::map<uint32_t, Live> live; std::map<uint32_t, uint32_t> nextGen; std::set<uint32_t> dead; // nextGen: generation to use next time
    std::set<uint64_t> used; // references that objects had
    bool reuse = true; uint32_t top = 0; int64_t serial = 0;
};
static uint64_t key(uint32_t n, uint32_t gen) { return ((uint64_t)n << 16) | gen; }
static PdfObject mark(int64_t s) { PdfDictionary d; d.AddKey("VfS", PdfObject(s)); return PdfObject(d); }
static int64_t serialOf(const PdfObject& o) { if (!o.IsDictionary()) return -1; auto k = o.GetDictionary().GetKey("VfS"); return k ? k->GetNumber() : -1; }
static void checkAll(const Model& m, PdfIndirectObjectList& L) {
    CHECK_EQ("size", L.GetSize(), m.live.size(), "objects"); auto it = m.live.begin(); unsigned i = 0;
    for (auto* o : L) { CHECK("iteration", it != m.live.end(), "iteration yields more objects than there are"); auto r = o->GetIndirectReference(); CHECK("iteration", r.ObjectNumber() == it->first && r.GenerationNumber() == it->second.gen, "position " << i << ": " << r.ToString() << " instead of " << it->first << " " << it->second.gen); CHECK("iteration", o == it->second.at, "another object is at " << r.ToString()); if (it->second.serial >= 0) CHECK_EQ("serial", serialOf(*o), it->second.serial, r.ToString()); ++it; ++i; }
    CHECK("iteration", it == m.live.end(), "iteration misses objects");
    for (auto& x : m.live) { CHECK("lookup", L.GetObject(PdfReference(x.first, (uint16_t)x.second.gen)) == x.second.at, "lookup of " << x.first << " " << x.second.gen); CHECK("lookup-gen", x.second.gen == 65535 || L.GetObject(PdfReference(x.first, (uint16_t)(x.second.gen + 1))) == nullptr, "lookup with a later generation finds an object"); CHECK("lookup-gen", x.second.gen == 0 || L.GetObject(PdfReference(x.first, (uint16_t)(x.second.gen - 1))) == nullptr, "lookup with an earlier generation finds an object"); }
    for (auto& x : m.nextGen) if (!m.live.count(x.first)) CHECK("lookup-free", L.GetObject(PdfReference(x.first, (uint16_t)x.second)) == nullptr && (x.second == 0 || L.GetObject(PdfReference(x.first, (uint16_t)(x.second - 1))) == nullptr), "a removed object is still found at " << x.first);
    CHECK("count", L.GetObjectCount() > (m.live.empty() ? 0 : m.live.rbegin()->first), "object count " << L.GetObjectCount());
}
static void added(Model& m, PdfObject& o, const char* how) {
    auto r = o.GetIndirectReference(); uint32_t n = r.ObjectNumber(), gen = r.GenerationNumber(); CHECK("number", n >= 1, how << " gave number " << n); CHECK("unique", !m.live.count(n), how << " gave " << r.ToString() << ", a number in use"); CHECK("dead", !m.dead.count(n), how << " gave " << r.ToString() << " whose generations are used up"); CHECK("stale", !m.used.count(key(n, gen)), how << " gave " << r.ToString() << ", which an earlier object had");
    auto f = m.nextGen.find(n); if (f != m.nextGen.end()) { CHECK("no-reuse", m.reuse, how << " used the free number " << n << " although reuse is disabled"); CHECK_EQ("generation", gen, f->second, how << " reused " << n); m.nextGen.erase(f); } else { CHECK_EQ("generation", gen, 0u, how << " gave the fresh number " << n); if (m.reuse) CHECK("fresh", m.nextGen.empty() , how << " gave the fresh number " << n << " although free numbers are left"); }
    m.used.insert(key(n, gen)); m.live[n] = Live{ gen, m.serial, &o }; m.top = std::max(m.top, n);
}
static void removed(Model& m, uint32_t n) { uint32_t gen = m.live[n].gen; m.live.erase(n); if (gen + 1 >= 65535) m.dead.insert(n); else m.nextGen[n] = gen + 1; }
static void ops(pbt::Src& g, Model& m, PdfMemDocument& doc, unsigned k, unsigned& rem) {
    auto& L = doc.GetObjects(); auto own = [&](uint32_t n) { auto o = m.live[n].at; auto r = o->GetIndirectReference(); return r == doc.GetCatalog().GetObject().GetIndirectReference() || m.live[n].serial < 0; };
    for (unsigned i = 0; i < k; i++) {
        auto pick = [&](bool any) -> uint32_t { std::vector<uint32_t> v; for (auto& x : m.live) if (any || !own(x.first)) v.push_back(x.first); return v.empty() ? 0 : g.pick(v); };
        unsigned op = (unsigned)g.weighted({ 6, 5, 2, 2, 1, 1 });
        switch (op) {
            case 0: { m.serial++; PdfObject v = mark(m.serial); unsigned w = (unsigned)g.draw(3); PdfObject* o; if (w == 0) o = &L.CreateObject(v); else if (w == 1) o = &L.CreateObject(PdfObject(v)); else if (w == 2) { o = &L.CreateDictionaryObject(); o->GetDictionary().AddKey("VfS", PdfObject(m.serial)); } else { o = &L.CreateDictionaryObject("T", "S"); o->GetDictionary().AddKey("VfS", PdfObject(m.serial)); } added(m, *o, "creating"); g.trace("create ", o->GetIndirectReference().ToString()); break; }
            case 1: { auto n = pick(false); if (!n) break; auto s = m.live[n].serial; std::unique_ptr<PdfObject> o; if (g.chance(1, 4)) { auto it = L.begin(); while ((*it)->GetIndirectReference().ObjectNumber() != n) ++it; o = L.RemoveObject(it); } else o = L.RemoveObject(PdfReference(n, (uint16_t)m.live[n].gen)); CHECK("removed", o && serialOf(*o) == s, "removing " << n << " returned another object"); removed(m, n); rem++; g.trace("remove ", n); break; }
            case 2: { auto n = pick(true); if (!n) break; auto r = PdfReference(g.coin() ? n : m.top + 1 + (uint32_t)g.draw(3), (uint16_t)(m.live[n].gen + 1)); CHECK("remove-wrong", !L.RemoveObject(r), "removing " << r.ToString() << " removed an object"); break; }
            case 3: { auto n = pick(false); if (!n) break; auto old = m.live[n].serial; m.serial++; auto o = new PdfObject(mark(m.serial)); auto r = PdfReference(n, (uint16_t)m.live[n].gen); auto ret = L.ReplaceObject(r, o); CHECK("replaced", ret && serialOf(*ret) == old, "replacing " << n << " returned another object"); CHECK("replaced", o->GetIndirectReference() == r && o->GetDocument() == &doc, "the object put at " << r.ToString() << " has reference " << o->GetIndirectReference().ToString()); m.live[n].serial = m.serial; m.live[n].at = o; g.trace("replace ", n); break; }
            case 4: { bool r = g.coin(); L.SetCanReuseObjectNumbers(r); g.trace("reuse ", r); if (!r) { for (auto& x : m.nextGen) m.dead.insert(x.first); m.nextGen.clear(); } m.reuse = r; break; }
            default: { auto n = pick(true); if (!n) break; auto& o = L.MustGetObject(PdfReference(n, (uint16_t)m.live[n].gen)); CHECK("must", &o == m.live[n].at, "MustGetObject(" << n << ")"); bool threw = false; try { L.MustGetObject(PdfReference(m.top + 7, 0)); } catch (PdfError& e) { threw = e.GetError() == PdfErrorCode::NoObject; } CHECK("must", threw, "MustGetObject of a missing object does not raise NoObject"); }
        }
    }
    checkAll(m, L);
}
static void adopt(Model& m, PdfMemDocument& doc) { for (auto* o : doc.GetObjects()) { auto r = o->GetIndirectReference(); m.live[r.ObjectNumber()] = Live{ r.GenerationNumber(), serialOf(*o), o }; m.used.insert(key(r.ObjectNumber(), r.GenerationNumber())); m.top = std::max(m.top, r.ObjectNumber()); } }
// saves, checks the free entries of the file with the strict reader, reloads and carries the model over
static std::unique_ptr<PdfMemDocument> reload(pbt::Src& g, Model& m, PdfMemDocument& doc, std::unique_ptr<std::string>& bytes, bool update) {
    PdfSaveOptions o = PdfSaveOptions::NoCollectGarbage | PdfSaveOptions::NoModifyDateUpdate; std::string out;
    if (update) { out = *bytes; StringStreamDevice dev(out); doc.SaveUpdate(dev, o); } else out = save(doc, o); g.trace(update ? "update " : "save ", pbt::show(out, 1500));
    auto r = readStrict(out); std::map<int64_t, Section::E> last; for (auto& s : r.sections) for (auto& e : s.entries) last.insert(e);
    for (auto& x : m.live) { auto it = last.find(x.first); CHECK("saved-live", it != last.end() && it->second.type != 0, "object " << x.first << " has no entry in the file"); if (it->second.type == 1) CHECK_EQ("saved-gen", (uint32_t)it->second.b, x.second.gen, "generation of " << x.first << " in the file"); auto f = r.doc.objs.find(x.first); CHECK("saved-live", f != r.doc.objs.end(), "object " << x.first); if (x.second.serial >= 0) { auto v = f->second.v.get("VfS"); CHECK("saved-serial", v && v->i == x.second.serial, "object " << x.first << " in the file is another one: " << ref::show(f->second.v)); } }
    for (auto& e : last) if (e.second.type == 0 && e.first != 0) { CHECK("saved-free", !m.live.count((uint32_t)e.first), "live object " << e.first << " is free in the file"); auto f = m.nextGen.find((uint32_t)e.first); if (f != m.nextGen.end()) CHECK_EQ("free-generation", (uint32_t)e.second.b, f->second, "the free entry of " << e.first); else CHECK("free-generation", e.second.b == 65535 || !m.dead.count((uint32_t)e.first), "the free entry of the retired number " << e.first << " has generation " << e.second.b); }
    for (auto& x : m.nextGen) { auto it = last.find(x.first); auto xr = r.doc.objs.find(x.first); bool isX = xr != r.doc.objs.end() && xr->second.v.get("Type") && xr->second.v.get("Type")->s == "XRef"; if (it != last.end()) CHECK("saved-free", it->second.type == 0 || isX, "free number " << x.first << " is in use in the file"); }
    bytes = std::make_unique<std::string>(out); auto n = loadMm(*bytes, (unsigned)g.draw(2)); Model k; adopt(k, *n); k.serial = m.serial; 
    // cross-reference streams take a number of their own
    for (auto it = k.live.begin(); it != k.live.end();) { if (!m.live.count(it->first)) { auto o = it->second.at; CHECK("reloaded", o->IsDictionary() && o->GetDictionary().GetKey("Type") && o->GetDictionary().GetKey("Type")->GetName() == "XRef", "unexpected object " << it->first << " after loading"); it->second.serial = -1; } ++it; }
    for (auto& x : m.live) { auto it = k.live.find(x.first); CHECK("reloaded", it != k.live.end() && it->second.gen == x.second.gen, "object " << x.first << " " << x.second.gen << " is not there after loading"); if (x.second.serial >= 0) CHECK_EQ("reloaded", it->second.serial, x.second.serial, "object " << x.first << " after loading"); it->second.serial = x.second.serial; }
    k.used.insert(m.used.begin(), m.used.end()); for (auto& e : last) if (e.second.type == 0 && e.first != 0 && !k.live.count((uint32_t)e.first)) { if (e.second.b >= 65535) k.dead.insert((uint32_t)e.first); else k.nextGen[(uint32_t)e.first] = (uint32_t)e.second.b; k.top = std::max(k.top, (uint32_t)e.first); }
    m = k; g.label(update ? "reloaded after an update" : "reloaded"); return n;
}
PROP(C12, memory, 30000, 400000, 20) {
    PdfMemDocument doc; Model m; adopt(m, doc); unsigned rem = 0; unsigned rounds = 1 + (unsigned)g.draw(4); for (unsigned i = 0; i < rounds; i++) { ops(g, m, doc, g.size(30), rem); if (g.chance(1, 5)) { auto& L = doc.GetObjects(); // everything reachable only through the catalog goes
            doc.CollectGarbage(); Model k = m; for (auto& x : k.live) if (!L.GetObject(PdfReference(x.first, (uint16_t)x.second.gen))) removed(m, x.first); checkAll(m, L); g.label("collected"); } } if (rem >= 3) g.nontrivial();
}
PROP(C12, persisted, 12000, 200000, 20) {
    auto doc = std::make_unique<PdfMemDocument>(); Model m; adopt(m, *doc); unsigned rem = 0; std::unique_ptr<std::string> bytes; unsigned rounds = 1 + (unsigned)g.draw(2); ops(g, m, *doc, g.size(20), rem);
    for (unsigned i = 0; i < rounds; i++) { auto old = std::move(doc); std::unique_ptr<std::string> keep = bytes ? std::make_unique<std::string>(*bytes) : nullptr; std::unique_ptr<std::string> prev; if (bytes) prev = std::make_unique<std::string>(); bool upd = bytes && g.coin(); auto hold = std::move(bytes); if (hold) bytes = std::make_unique<std::string>(*hold); doc = reload(g, m, *old, bytes, upd); old.reset(); ops(g, m, *doc, g.size(20), rem); } g.nontrivial();
}
// files another producer made: any generations, free lists and gaps
PROP(C12, foreign, 10000, 150000, 20) {
    Opt o; o.extra = 1 + g.size(8); o.gens = g.chance(2, 3); o.sparse = true; o.maxGap = 1 + (int64_t)g.draw(40); o.filters = false; M mm = gen(g, o); History h = history(g, mm, o, 1 + (unsigned)g.draw(2), false); g.trace(pbt::show(h.bytes, 3000)); auto bytes = std::make_unique<std::string>(h.bytes); auto doc = loadMm(*bytes, (unsigned)g.draw(2)); Model m; adopt(m, *doc);
    auto r = readStrict(h.bytes); std::map<int64_t, Section::E> last; for (auto& s : r.sections) for (auto& e : s.entries) last.insert(e);
    for (auto& x : mm.d.objs) CHECK("loaded", m.live.count((uint32_t)x.first) && m.live[(uint32_t)x.first].gen == x.second.gen, "object " << x.first << " " << x.second.gen << " is not there after loading");
    for (auto& x : m.live) x.second.serial = -1; for (auto& e : last) if (e.second.type == 0 && e.first != 0 && !m.live.count((uint32_t)e.first)) { if (e.second.b >= 65535) m.dead.insert((uint32_t)e.first); else m.nextGen[(uint32_t)e.first] = (uint32_t)e.second.b; }
    unsigned rem = 0; ops(g, m, *doc, 1 + g.size(20), rem); g.nontrivial(); if (g.coin()) { auto old = std::move(doc); auto hold = std::make_unique<std::string>(*bytes); doc = reload(g, m, *old, bytes, g.coin()); old.reset(); ops(g, m, *doc, g.size(10), rem); }
}
// generations run out, and numbers beyond 16 bits
PROP(C12, extremes, 60, 1500, 60) {
    PdfMemDocument doc; Model m; adopt(m, doc); auto& L = doc.GetObjects(); m.serial++; bool gens = g.coin();
    if (gens) { // one number through all its generations
        uint32_t n = 0, last = 0; unsigned count = 65530 + (unsigned)g.draw(12); for (unsigned i = 0; i < count; i++) { auto& o = L.CreateObject(mark(m.serial)); auto r = o.GetIndirectReference(); if (n == 0) n = r.ObjectNumber(); if (r.ObjectNumber() != n) { last = r.ObjectNumber(); L.RemoveObject(r); break; } CHECK_EQ("generation", (unsigned)r.GenerationNumber(), i, "generation"); L.RemoveObject(r); }
        if (count >= 65536) CHECK("exhausted", last != 0 && last != n, "number " << n << " is used beyond its last generation"); for (unsigned i = 0; i < 3; i++) { auto r = L.CreateObject(mark(1)).GetIndirectReference(); if (last) CHECK("exhausted", r.ObjectNumber() != n, "number " << n << " is used again as " << r.ToString()); } g.trace("generations ", count); }
    else { unsigned count = 65000 + (unsigned)g.draw(3000); std::vector<PdfReference> rs; std::set<uint32_t> seen; for (unsigned i = 0; i < count; i++) { auto r = L.CreateObject(mark(i)).GetIndirectReference(); CHECK("unique", seen.insert(r.ObjectNumber()).second, r.ToString() << " twice"); rs.push_back(r); } for (unsigned i = 0; i < 200; i++) { auto k = g.index(rs.size()); auto o = L.GetObject(rs[k]); CHECK("lookup", o && serialOf(*o) == (int64_t)k, "lookup of " << rs[k].ToString()); } PdfArray a; std::set<unsigned> ks; for (unsigned i = 0; i < 30; i++) ks.insert(g.index(rs.size())); ks.insert(count - 1); for (auto k : ks) a.Add(PdfObject(rs[k])); doc.GetCatalog().GetDictionary().AddKey("VfKeep", PdfObject(a)); bool gc = g.coin();
        std::string out = save(doc, gc ? PdfSaveOptions::None : PdfSaveOptions::NoCollectGarbage); auto n = loadMm(out); auto* arr = n->GetCatalog().GetDictionary().FindKey("VfKeep"); unsigned i = 0; for (auto k : ks) { auto* o = arr->GetArray().FindAt(i++); CHECK("large", o && serialOf(*o) == (int64_t)k, "the reference to object " << rs[k].ToString() << " resolves to another object after saving and loading"); } g.trace("objects ", count, " kept ", ks.size(), " gc ", gc); }
    g.nontrivial();
}
