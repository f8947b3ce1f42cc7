// C10: incremental updates.
#include "refdoc.h"
#include <unistd.h>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "at least two changes of different kinds before an update, or more than one update";
    pbt::g_assumptions = "updates are appended to the file they were loaded from, one after the other\ncontents are compared with an independent strict reader and with the library\nobjects made only to hold cross-reference data are not compared";
} } init;
typedef std::map<int64_t, Snap> S;
static PdfReference R(int64_t n, const Snap& s) { return PdfReference((uint32_t)n, (uint16_t)s.gen); }
// edits a container nested somewhere in the object, in the model and in the document
static bool editNested(pbt::Src& g, V& v, PdfObject& o, bool top, bool stream = false) {
    std::vector<std::string> keys; if (v.k == K::Dict) for (auto& x : v.m) if ((x.second.k == K::Dict || x.second.k == K::Arr) && !(stream && (x.first == "Filter" || x.first == "DecodeParms"))) keys.push_back(x.first);
    std::vector<size_t> idx; if (v.k == K::Arr) for (size_t i = 0; i < v.a.size(); i++) if (v.a[i].k == K::Dict || v.a[i].k == K::Arr) idx.push_back(i);
    if (!keys.empty() && g.chance(2, 3)) { auto k = g.pick(keys); return editNested(g, v.m[k], *o.GetDictionary().GetKey(nameOf(k)), false); }
    if (!idx.empty() && g.chance(2, 3)) { auto i = g.pick(idx); return editNested(g, v.a[i], o.GetArray()[(unsigned)i], false); }
    if (v.k == K::Arr) { auto& A = o.GetArray(); switch (g.draw(8)) { case 0: { V x = V::integer((int64_t)g.draw(99)); v.a.push_back(x); A.Add(toObj(x)); return true; }
        case 3: if (v.a.empty()) return false; { auto i = g.index(v.a.size()); size_t j = i + 1 + g.draw(v.a.size() - i - 1); if (g.coin()) j = v.a.size(); v.a.erase(v.a.begin() + i, v.a.begin() + j); A.erase(A.begin() + i, A.begin() + j); return true; }
        case 4: { auto i = g.draw(v.a.size()); V x = V::name("Ins"); v.a.insert(v.a.begin() + i, x); if (g.coin()) A.insert(A.begin() + i, toObj(x)); else { std::vector<PdfObject> xs{ toObj(x) }; A.insert(A.begin() + i, xs.begin(), xs.end()); } return true; }
        case 5: { size_t n = g.size(6); if (n == v.a.size()) return false; V x = V::integer(7); v.a.resize(n, x); A.Resize((unsigned)n, toObj(x)); return true; }
        case 6: if (v.a.empty()) return false; v.a.clear(); A.Clear(); return true;
        case 7: if (v.a.empty()) return false; { auto i = g.index(v.a.size()); V x = V::boolean(true); v.a[i] = x; if (g.coin()) A.SetAt(i, toObj(x)); else *(A.begin() + i) = toObj(x); return true; }
        case 8: if (v.a.empty()) return false; { auto i = g.index(v.a.size()); v.a.erase(v.a.begin() + i); A.erase(A.begin() + i); return true; }
        case 1: if (v.a.empty()) return false; { auto i = g.index(v.a.size()); v.a.erase(v.a.begin() + i); o.GetArray().RemoveAt(i); return true; }
        default: if (v.a.empty()) return false; { auto i = g.index(v.a.size()); V x = V::str("set"); v.a[i] = x; o.GetArray()[i] = toObj(x); return true; } } }
    if (v.k == K::Dict) { if (top && v.m.count("Type")) { v.m["VfEdit"] = V::integer(1); o.GetDictionary().AddKey("VfEdit", toObj(V::integer(1))); return true; }
        switch (g.draw(4)) { case 0: { V x = V::arr({ V::integer((int64_t)g.draw(99)) }); v.m["VfAdd"] = x; o.GetDictionary().AddKey("VfAdd", toObj(x)); return true; }
            case 1: { std::vector<std::string> ks; for (auto& x : v.m) if (!stream || (x.first != "Length" && x.first != "Filter" && x.first != "DecodeParms")) ks.push_back(x.first); if (ks.empty()) return false; auto k = g.pick(ks); v.m.erase(k); o.GetDictionary().RemoveKey(nameOf(k)); return true; }
            case 3: { V x = V::integer(5); v.m["VfIns"] = x; if (g.coin()) o.GetDictionary().AddKeyIndirectSafe("VfIns", toObj(x)); else o.GetDictionary().AddKey("VfIns", toObj(x)); return true; }
            case 4: { if (stream || top) return false; v.m.clear(); o.GetDictionary().Clear(); return true; }
            default: { std::vector<std::string> ks; for (auto& x : v.m) if (!stream || (x.first != "Length" && x.first != "Filter" && x.first != "DecodeParms")) ks.push_back(x.first); if (ks.empty()) return false; auto k = g.pick(ks); V x = V::name("Changed"); v.m[k] = x; *o.GetDictionary().GetKey(nameOf(k)) = toObj(x); return true; } } }
    return false;
}
PROP(C10, updates, 15000, 200000, 20) {
    Opt o; o.extra = 2 + g.size(10); o.gens = g.chance(1, 3); o.sparse = g.chance(1, 3); o.info = g.chance(4, 5); o.indirectLength = g.chance(1, 3); M m = gen(g, o);
    History h = history(g, m, o, 1 + (unsigned)g.weighted({ 3, 2, 1 }), g.chance(1, 3)); g.trace(str(m)); g.trace(pbt::show(h.bytes, 4000));
    std::vector<std::unique_ptr<std::string>> files; files.push_back(std::make_unique<std::string>(h.bytes)); auto doc = loadMm(*files.back(), (unsigned)g.draw(2)); S cur = snap(m); std::set<int64_t> lens; for (auto& x : m.d.objs) if (x.second.hasStream) { auto l = x.second.v.get("Length"); if (l && l->k == K::Ref) lens.insert(l->i); } V trailer = m.d.trailer; std::set<int64_t> helpers = h.helpers; int64_t root = m.root();
    unsigned rounds = 1 + (unsigned)g.weighted({ 3, 2, 1 }); std::set<unsigned> kinds; GenOpt vo = o.values; int64_t key = 0; bool reuse = true; std::set<int64_t> removed;
    for (unsigned r = 0; r < rounds; r++) {
        std::set<int64_t> touched, created; unsigned nops = g.size(7);
        for (unsigned i = 0; i < nops; i++) {
            std::vector<int64_t> ns, plain; for (auto& x : cur) { if (lens.count(x.first)) continue; ns.push_back(x.first); auto t = x.second.v.get("Type"); if (x.first != root && !(t && t->k == K::Name) && !(trailer.get("Info") && trailer.get("Info")->i == x.first)) plain.push_back(x.first); }
            auto value = [&] { GenOpt q = vo; V v = ref::gen(g, q); std::function<void(V&)> fix = [&](V& x) { if (x.k == K::Ref) { auto n = ns[(size_t)x.i % ns.size()]; x = V::refTo(n, cur[n].gen); } for (auto& y : x.a) fix(y); for (auto& y : x.m) fix(y.second); }; fix(v); if (v.k == K::Ref) v = V::arr({ v }); if (v.k == K::Dict) v.m.erase("Type"); return v; };
            unsigned op = (unsigned)g.draw(7); kinds.insert(op);
            switch (op) {
                case 0: if (!plain.empty()) { auto n = g.pick(plain); if (cur[n].hasStream) break; V v = value(); *doc->GetObjects().GetObject(R(n, cur[n])) = toObj(v); cur[n].v = v; touched.insert(n); g.trace("set ", n, " ", ref::show(v)); } break;
                case 1: { auto n = g.pick(ns); if (trailer.get("Info") && trailer.get("Info")->i == n) break; auto& ob = *doc->GetObjects().GetObject(R(n, cur[n])); V v = cur[n].v; if (v.k == K::Dict || v.k == K::Arr) { auto t = v.get("Type"); if (t && t->k == K::Name) { v.m["VfEdit" + std::to_string(i)] = V::integer(i); ob.GetDictionary().AddKey(nameOf("VfEdit" + std::to_string(i)), toObj(V::integer(i))); cur[n].v = v; touched.insert(n); } else if (editNested(g, v, ob, true, cur[n].hasStream)) { cur[n].v = v; touched.insert(n); g.trace("edit ", n, " to ", ref::show(v)); } } break; }
                case 2: if (!plain.empty()) { auto n = g.pick(plain); auto& ob = *doc->GetObjects().GetObject(R(n, cur[n])); if (!cur[n].hasStream && cur[n].v.k != K::Dict) break; std::string d = genData(g); ob.GetOrCreateStream().SetData(bufferview(d.data(), d.size())); cur[n].hasStream = true; cur[n].data = d; touched.insert(n); g.trace("stream of ", n); } break;
                case 3: { V v = value(); auto& ob = doc->GetObjects().CreateObject(toObj(v)); int64_t n = ob.GetIndirectReference().ObjectNumber(); CHECK("number", !cur.count(n), "new object takes number " << n << " in use"); Snap s; s.v = v; s.gen = ob.GetIndirectReference().GenerationNumber(); if (g.coin()) { if (s.v.k == K::Dict) { std::string d = genData(g); for (auto k : { "Length", "Filter", "DecodeParms" }) { ob.GetDictionary().RemoveKey(k); s.v.m.erase(k); } ob.GetOrCreateStream().SetData(bufferview(d.data(), d.size())); s.hasStream = true; s.data = d; } } cur[n] = s; created.insert(n); touched.insert(n); if (g.chance(3, 4)) { auto k = "VfN" + std::to_string(key++); doc->GetCatalog().GetDictionary().AddKey(nameOf(k), PdfObject(ob.GetIndirectReference())); cur[root].v.m[k] = V::refTo(n, s.gen); touched.insert(root); } g.trace("create ", n, " ", ref::show(v)); break; }
                case 4: if (!plain.empty()) { auto n = g.pick(plain); doc->GetObjects().RemoveObject(R(n, cur[n])); cur.erase(n); touched.erase(n); removed.insert(n); g.trace("remove ", n); } break;
                case 5: { auto n = g.pick(ns); auto& ob = *doc->GetObjects().GetObject(R(n, cur[n])); (void)fromObj(ob); if (ob.HasStream()) (void)streamData(ob); (void)doc->GetPages().GetCount(); if (doc->GetPages().GetCount()) (void)doc->GetPages().GetPageAt(0).GetMediaBox(); (void)doc->GetMetadata().GetTitle(); break; }
                case 6: if (trailer.get("Info")) { auto n = trailer.get("Info")->i; doc->GetMetadata().SetTitle(PdfString("Title")); cur[n].v.m["Title"] = V::str("Title"); touched.insert(n); } break;
                default: if (g.chance(1, 4)) { doc->GetObjects().SetCanReuseObjectNumbers(false); reuse = false; g.trace("no reuse of numbers"); } break;
            }
        }
        PdfSaveOptions opt = genSave(g); if (g.chance(2, 3)) opt |= PdfSaveOptions::NoModifyDateUpdate; if (g.coin()) opt |= PdfSaveOptions::NoCollectGarbage; bool mod = !has(opt, PdfSaveOptions::NoModifyDateUpdate), gc = !has(opt, PdfSaveOptions::NoCollectGarbage); g.trace("update ", saveStr(opt));
        if (g.chance(1, 5)) { doc->GetMetadata().SetPdfVersion(PdfVersion::V1_7); if (m.d.version < "1.7" ) { const V* v = cur[root].v.get("Version"); if (!v) { cur[root].v.m["Version"] = V::name("1.7"); touched.insert(root); } } g.trace("version 1.7"); }
        // an update
        std::string base = *files.back(), out;
        if (g.chance(1, 4)) { auto p = scratch("upd.pdf"); spit(p, base); doc->SaveUpdate(p, opt); out = slurp(p); unlink(p.c_str()); g.label("to a file"); }
        else { out = base; StringStreamDevice dev(out); doc->SaveUpdate(dev, opt); }
        g.trace("appended: ", pbt::show(out.size() > base.size() ? out.substr(base.size()) : "", 3000));
        CHECK("prefix", out.size() > base.size() && out.compare(0, base.size(), base) == 0, "the file did not keep its first " << base.size() << " bytes");
        V t2 = fromObj(doc->GetTrailer().GetObject()); std::set<int64_t> infoNew; if (mod) { auto i = t2.get("Info"); CHECK("info", i && i->k == K::Ref, "no /Info after updating the modification date"); if (!trailer.get("Info")) { trailer.m["Info"] = *i; infoNew.insert(i->i); removed.erase(i->i); auto s = snapshot(*doc); cur[i->i] = s[i->i]; } touched.insert(trailer.get("Info")->i); }
        S want = gc ? only(cur, reachable(cur, trailer)) : cur; for (auto& x : cur) if (!want.count(x.first)) removed.insert(x.first);
        auto strip = [&](S& s) { auto i = trailer.get("Info"); if (i && s.count(i->i)) s[i->i].v.m.erase("ModDate"); };
        S w = want; strip(w); CmpOpt c; c.realTol = 1.1e-6; 
        ReadResult rr = readStrict(out); S got = snap(rr.doc); for (auto& x : got) { auto t = x.second.v.get("Type"); if (x.second.hasStream && t && t->s == "XRef") helpers.insert(x.first); } strip(got); c.ignore = helpers; for (auto& x : w) if (helpers.count(x.first)) { auto t = got[x.first].v.get("Type"); if (!(t && (t->s == "XRef" || t->s == "ObjStm"))) c.ignore.erase(x.first); }
        c.ignore.insert(lens.begin(), lens.end()); // held by the streams alone: a stream written again may have a direct one
        { auto d = compare(got, w, c); CHECK("content", d.empty(), "the updated file, read independently: " << d); }
        for (auto k : { "Root", "Info" }) { auto a = rr.doc.trailer.get(k), b = trailer.get(k); CHECK("trailer", (!a && !b) || (a && b && diff(*a, *b).empty()), "/" << k << " of the updated file"); }
        // only what changed is in the new section
        for (auto& e : rr.sections[0].entries) if (e.second.type == 1) { auto n = e.first; auto t = got.count(n) ? got[n].v.get("Type") : nullptr; bool x = t && t->s == "XRef"; CHECK("untouched", touched.count(n) || infoNew.count(n) || x, "object " << n << " was written again although it was not changed"); }
        files.push_back(std::make_unique<std::string>(out)); std::unique_ptr<PdfMemDocument> n2;
        try { n2 = loadMm(*files.back(), (unsigned)g.draw(1)); } catch (PdfError& e) { pbt::fail("reload-failed", std::string("updated file cannot be loaded: ") + e.what()); }
        S re = snapshot(*n2); strip(re); { auto d = compare(re, w, c); CHECK("reload", d.empty(), "the updated file, loaded again: " << d); }
        cur = want; for (auto n : std::set<int64_t>(lens)) if (auto it = cur.find(n); it != cur.end() && !doc->GetObjects().GetObject(R(n, it->second))) { cur.erase(n); lens.erase(n); }
        if (mod) { auto i = trailer.get("Info"); cur[i->i] = snapshot(*doc)[i->i]; }
        if (g.coin()) { doc = std::move(n2); for (auto& x : cur) if (re.count(x.first)) { if (!(trailer.get("Info") && trailer.get("Info")->i == x.first)) x.second.v = re[x.first].v; } if (trailer.get("Info")) cur[trailer.get("Info")->i] = snapshot(*doc)[trailer.get("Info")->i]; m.d.version = doc->GetMetadata().GetPdfVersion() == PdfVersion::V1_7 ? "1.7" : m.d.version; g.label("reloaded between updates"); }
        else if (r + 1 < rounds) g.label("several updates of one document");
        if (removed.size()) g.label("with removals");
    }
    (void)reuse; if (kinds.size() >= 2 || rounds > 1) g.nontrivial();
}
