#include "refdoc.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
namespace refdoc {
using refmm::Snap;
std::string genData(pbt::Src& g, unsigned max) {
    switch (g.weighted({ 4, 2, 2, 1 })) {
        case 0: return g.bytes(std::min(max, 120u));
        case 1: { std::string unit = g.bytes(9), r; unsigned n = g.size(30); for (unsigned i = 0; i < n && r.size() < max; i++) r += unit; return r.substr(0, max); }
        case 2: return g.pick<const char*>({ "endstream", "endobj\n", "stream\r\nendstream endobj", "q 1 0 0 1 0 0 cm Q", "%%EOF", "\n", "\r\n", "xref\n0 1\n", "BT /F1 12 Tf (x) Tj ET", " \n\r" });
        default: { unsigned n = g.size(max); std::string r(n, 0); uint64_t s = g.draw(~0ull >> 1); for (auto& c : r) { s = s * 6364136223846793005ull + 1442695040888963407ull; c = (char)(s >> 56); } return r; }
    }
}
V genValue(pbt::Src& g, const M& m, const GenOpt& o, bool dangling) {
    GenOpt q = o; V v = ref::gen(g, q); std::vector<int64_t> ns = m.nums(); int64_t mx = m.max();
    std::function<void(V&)> fix = [&](V& x) { if (x.k == K::Ref) { int64_t n = x.i; bool wild = dangling && n % 11 == 7; if (ns.empty()) { x = V::null(); return; } if (wild) { x = V::refTo(mx + 1 + n, 0); return; } n = ns[(size_t)n % ns.size()]; x = V::refTo(n, m.d.objs.at(n).gen); } for (auto& y : x.a) fix(y); for (auto& y : x.m) fix(y.second); };
    fix(v); return v;
}
void setStream(pbt::Src& g, M& m, int64_t n, const std::string& data, bool filters) {
    Obj& o = m.d.objs[n]; if (o.v.k != K::Dict) o.v = V::dict(); o.hasStream = true; m.data[n] = data; o.raw = data; o.v.m.erase("Filter"); o.v.m.erase("DecodeParms");
    if (filters) switch (g.draw(5)) {
        case 0: case 1: break;
        case 2: o.raw = deflateAll(data); o.v.m["Filter"] = V::name("FlateDecode"); break;
        case 3: o.raw = hexEncode(data, &g); o.v.m["Filter"] = V::arr({ V::name("ASCIIHexDecode") }); break;
        case 4: o.raw = a85Encode(deflateAll(data), &g); o.v.m["Filter"] = V::arr({ V::name("ASCII85Decode"), V::name("FlateDecode") }); break;
        default: o.raw = lzwEncode(data, 0, &g); o.v.m["Filter"] = V::arr({ V::name("LZWDecode") }); o.v.m["DecodeParms"] = V::arr({ V::dict({ { "EarlyChange", V::integer(0) } }) }); break;
    }
    o.v.m["Length"] = V::integer((int64_t)o.raw.size());
}
M gen(pbt::Src& g, const Opt& o) {
    M m; m.d.version = g.pick<const char*>({ "1.7", "1.4", "1.5", "1.3", "1.6" });
    unsigned np = g.size(o.pages), ne = g.size(o.extra); unsigned total = 2 + np + (o.info ? 1 : 0) + ne;
    std::vector<int64_t> nums; int64_t n = 0; for (unsigned i = 0; i < total; i++) { n += 1 + (o.sparse && g.chance(1, 5) ? (int64_t)g.draw(o.maxGap) : 0); nums.push_back(n); }
    if (g.coin()) for (size_t i = nums.size() - 1; i > 0; i--) std::swap(nums[i], nums[g.draw(i)]);
    for (auto x : nums) { Obj ob; ob.v = V::null(); if (o.gens && g.chance(1, 5)) ob.gen = (uint32_t)(1 + g.draw(g.coin() ? 3 : 65533)); m.d.objs[x] = ob; }
    size_t at = 0; auto take = [&] { return nums[at++]; }; auto R = [&](int64_t x) { return V::refTo(x, m.d.objs[x].gen); };
    int64_t root = take(), pages = take(); std::vector<int64_t> ps, ex; for (unsigned i = 0; i < np; i++) ps.push_back(take()); int64_t info = o.info ? take() : 0; while (at < nums.size()) ex.push_back(take());
    V kids = V::arr(); for (auto p : ps) kids.a.push_back(R(p));
    m.d.objs[pages].v = V::dict({ { "Type", V::name("Pages") }, { "Count", V::integer((int64_t)np) }, { "Kids", kids } });
    for (auto x : ex) { V v; if (g.chance(1, 3)) { GenOpt q = o.values; v = V::dict(); unsigned k = g.size(4); for (unsigned i = 0; i < k; i++) v.m[ref::genName(g, q.rawNames)] = genValue(g, m, q, o.dangling); for (auto b : { "Length", "Filter", "DecodeParms", "F", "FFilter", "FDecodeParms", "Type" }) v.m.erase(b); m.d.objs[x].v = v; setStream(g, m, x, genData(g), o.filters); }
        else { v = genValue(g, m, o.values, o.dangling); if (v.k == K::Ref) v = V::arr({ v }); if (v.k == K::Dict) v.m.erase("Type"); m.d.objs[x].v = v; } }
    V cat = V::dict({ { "Type", V::name("Catalog") }, { "Pages", R(pages) } }); V misc = V::arr(); for (auto x : ex) if (!o.garbage || g.chance(4, 5)) misc.a.push_back(R(x)); if (!misc.a.empty()) cat.m["VfMisc"] = misc; if (g.chance(1, 3)) cat.m["VfExtra"] = genValue(g, m, o.values, o.dangling); m.d.objs[root].v = cat;
    for (auto p : ps) { V d = V::dict({ { "Type", V::name("Page") }, { "Parent", R(pages) }, { "MediaBox", V::arr({ V::integer(0), V::integer(0), V::integer(100 + (int64_t)g.draw(500)), V::real(200.5) }) } }); if (g.coin()) d.m["Resources"] = V::dict(); if (!ex.empty() && g.coin()) { std::vector<int64_t> st; for (auto x : ex) if (m.d.objs[x].hasStream) st.push_back(x); if (!st.empty()) d.m["Contents"] = R(g.pick(st)); } m.d.objs[p].v = d; }
    m.d.trailer = V::dict({ { "Root", R(root) } });
    if (o.info) { V d = V::dict(); for (auto k : { "Title", "Author", "Subject", "Keywords", "Creator", "Producer" }) if (g.chance(1, 3)) d.m[k] = V::str(textBytes(utf8(genText(g, 12, (int)g.draw(2))))); if (g.chance(1, 3)) d.m["CreationDate"] = V::str("D:20210203040506+01'00'"); if (g.chance(1, 3)) d.m["VfKey"] = genValue(g, m, o.values, false); m.d.objs[info].v = d; m.d.trailer.m["Info"] = R(info); }
    return m;
}
void refsOf(const V& v, std::vector<V>& out) { if (v.k == K::Ref) out.push_back(v); for (auto& x : v.a) refsOf(x, out); for (auto& x : v.m) refsOf(x.second, out); }
std::set<int64_t> reachable(const Doc& d) {
    std::set<int64_t> seen; std::vector<V> todo; refsOf(d.trailer, todo);
    while (!todo.empty()) { V r = todo.back(); todo.pop_back(); auto it = d.objs.find(r.i); if (it == d.objs.end() || it->second.gen != r.gen || !seen.insert(r.i).second) continue; refsOf(it->second.v, todo); }
    return seen;
}
std::set<int64_t> reachable(const std::map<int64_t, Snap>& s, const V& trailer) {
    std::set<int64_t> seen; std::vector<V> todo; refsOf(trailer, todo);
    while (!todo.empty()) { V r = todo.back(); todo.pop_back(); auto it = s.find(r.i); if (it == s.end() || it->second.gen != r.gen || !seen.insert(r.i).second) continue; refsOf(it->second.v, todo); }
    return seen;
}
std::string write(pbt::Src& g, const M& m, const Layout& l, bool noise, std::set<int64_t>* helpers, FileWriter* fw) {
    FileWriter own(g); FileWriter& w = fw ? *fw : own; w.noise = noise; if (noise) w.eol = g.pick<const char*>({ "\n", "\r\n", "\r" });
    std::string ver = m.d.version; if (l.xref && ver < "1.5") ver = "1.5"; w.header(ver); w.nextFree = m.max() + 1; V t = m.d.trailer; t.m["Size"] = V::integer(m.max() + 1);
    std::map<int64_t, uint32_t> freed; for (int64_t i = 1; i <= m.max(); i++) if (!m.d.objs.count(i)) freed[i] = g.coin() ? 65535 : (uint32_t)g.draw(3);
    w.revision(m.d.objs, freed, t, l, true); if (helpers) *helpers = w.helper; return w.out;
}
std::string str(const M& m) { std::string r = "version " + m.d.version + " trailer " + ref::show(m.d.trailer) + "\n"; for (auto& x : m.d.objs) { r += std::to_string(x.first) + " " + std::to_string(x.second.gen) + " obj " + ref::show(x.second.v); if (x.second.hasStream) r += " stream " + pbt::show(m.data.count(x.first) ? m.data.at(x.first) : x.second.raw, 60); r += "\n"; } return r; }
std::map<int64_t, Snap> snap(const M& m) { std::map<int64_t, Snap> r; for (auto& x : m.d.objs) { Snap s; s.v = x.second.v; s.gen = x.second.gen; s.hasStream = x.second.hasStream; if (s.hasStream) s.data = m.data.at(x.first); r[x.first] = s; } return r; }
std::map<int64_t, Snap> snap(const Doc& d) { std::map<int64_t, Snap> r; for (auto& x : d.objs) { Snap s; s.v = x.second.v; s.gen = x.second.gen; s.hasStream = x.second.hasStream; if (s.hasStream) s.data = decodeStream(s.v, x.second.raw, &d); r[x.first] = s; } return r; }
std::map<int64_t, Snap> only(const std::map<int64_t, Snap>& s, const std::set<int64_t>& keep) { std::map<int64_t, Snap> r; for (auto& x : s) if (keep.count(x.first)) r.insert(x); return r; }
std::string compare(const std::map<int64_t, Snap>& got, const std::map<int64_t, Snap>& want, const CmpOpt& o) {
    for (auto& w : want) { if (o.ignore.count(w.first)) continue; auto it = got.find(w.first); std::string id = "object " + std::to_string(w.first); if (it == got.end()) { if (w.second.v.k == K::Null && !w.second.hasStream && !o.exactSet) continue; return id + " is missing, it was " + ref::show(w.second.v); } auto& a = it->second; auto& b = w.second;
        if (o.gens && a.gen != b.gen) return id + " has generation " + std::to_string(a.gen) + " instead of " + std::to_string(b.gen);
        if (a.hasStream != b.hasStream) return id + (b.hasStream ? " has lost its stream" : " has gained a stream");
        V va = a.v, vb = b.v; if (b.hasStream) { auto strip = [&](V& v) { if (v.k != K::Dict) return; if (o.ignoreLength) v.m.erase("Length"); if (o.ignoreFilter) { v.m.erase("Filter"); v.m.erase("DecodeParms"); } }; strip(va); strip(vb); }
        DiffOpt d; d.realTol = o.realTol; auto r = diff(va, vb, d); if (!r.empty()) return id + ": " + r;
        if (b.hasStream && a.data != b.data) return id + ": stream content " + pbt::show(a.data) + " instead of " + pbt::show(b.data); }
    if (o.exactSet) for (auto& a : got) if (!want.count(a.first) && !o.ignore.count(a.first)) return "unexpected object " + std::to_string(a.first) + " " + ref::show(a.second.v);
    return "";
}
using namespace mm; using namespace refmm;
V mapRefs(V v, const Built& b) { if (v.k == K::Ref) { auto it = b.at.find(v.i); if (it != b.at.end()) { v.i = it->second.ObjectNumber(); v.gen = it->second.GenerationNumber(); } else v.i += 500; } for (auto& y : v.a) y = mapRefs(y, b); for (auto& y : v.m) y.second = mapRefs(y.second, b); return v; }
Built buildMm(pbt::Src& g, M& m, PdfMemDocument& doc) {
    Built b; V cat = m.d.objs[m.root()].v, info = m.d.trailer.get("Info") ? m.d.objs[m.d.trailer.get("Info")->i].v : V::null();
    b.own = { m.root() }; b.at[m.root()] = doc.GetCatalog().GetObject().GetIndirectReference(); if (auto i = m.d.trailer.get("Info")) { b.own.insert(i->i); b.at[i->i] = doc.GetTrailer().GetDictionary().GetKey("Info")->GetReference(); }
    auto typeOf = [](const Obj& o) -> std::string { const V* t = o.v.get("Type"); return t && t->k == K::Name ? t->s : ""; };
    for (auto& x : m.d.objs) { auto t = typeOf(x.second); if (t == "Pages" || t == "Page") b.own.insert(x.first); if (t == "Pages") b.at[x.first] = doc.GetCatalog().GetDictionary().GetKey("Pages")->GetReference(); }
    for (auto& x : m.d.objs) { if (typeOf(x.second) == "Page") b.at[x.first] = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 200)).GetObject().GetIndirectReference(); else if (!b.own.count(x.first)) b.at[x.first] = doc.GetObjects().CreateDictionaryObject().GetIndirectReference(); }
    for (auto& x : m.d.objs) if (!b.own.count(x.first)) {
        V v = mapRefs(x.second.v, b); auto& ob = *doc.GetObjects().GetObject(b.at[x.first]); if (x.second.hasStream) for (auto k : { "Length", "Filter", "DecodeParms" }) v.m.erase(k);
        ob = toObj(v);
        if (x.second.hasStream) { auto& st = ob.GetOrCreateStream(); const std::string& dat = m.data[x.first]; switch (g.draw(3)) { case 0: st.SetData(bufferview(dat.data(), dat.size())); break; case 1: st.SetData(bufferview(dat.data(), dat.size()), { PdfFilterType::ASCIIHexDecode, PdfFilterType::FlateDecode }); break; case 2: st.SetData(bufferview(dat.data(), dat.size()), {}); break; default: { auto out = st.GetOutputStream({ PdfFilterType::ASCII85Decode }); out.Write(std::string_view(dat)); out.Flush(); } } } }
    for (auto k : { "VfMisc", "VfExtra" }) if (auto x = cat.get(k)) doc.GetCatalog().GetDictionary().AddKey(nameOf(k), toObj(mapRefs(*x, b)));
    if (info.k == K::Dict) for (auto& x : info.m) doc.GetObjects().GetObject(b.at[m.d.trailer.get("Info")->i])->GetDictionary().AddKey(nameOf(x.first), toObj(mapRefs(x.second, b)));
    return b;
}
PdfSaveOptions genSave(pbt::Src& g) { unsigned o = 0; for (unsigned b : { 4u, 8u, 16u, 32u }) if (g.coin()) o |= b; return (PdfSaveOptions)o; }
std::string saveStr(PdfSaveOptions o) { std::string r; if (has(o, PdfSaveOptions::NoFlateCompress)) r += "NoFlate "; if (has(o, PdfSaveOptions::NoCollectGarbage)) r += "NoGC "; if (has(o, PdfSaveOptions::NoModifyDateUpdate)) r += "NoModDate "; if (has(o, PdfSaveOptions::Clean)) r += "Clean"; return r; }
std::unique_ptr<PdfMemDocument> loadMm(const std::string& bytes, unsigned how) {
    auto d = std::make_unique<PdfMemDocument>();
    if (how == 1) { auto p = scratch("in.pdf"); spit(p, bytes); d->Load(p); }
    else if (how == 2) { auto s = std::make_shared<std::istringstream>(bytes); struct Keep : StandardStreamDevice { std::shared_ptr<std::istringstream> k; Keep(std::shared_ptr<std::istringstream> s) : StandardStreamDevice(*s), k(s) {} }; d->LoadFromDevice(std::make_shared<Keep>(s)); }
    else d->LoadFromBuffer(bufferview(bytes.data(), bytes.size()));
    return d;
}
static void setLength(pbt::Src& g, M& m, int64_t n, int64_t& next, const Opt& o) {
    auto& ob = m.d.objs[n]; if (!ob.hasStream || !o.indirectLength || !g.coin()) return;
    int64_t l = next++; Obj lo; lo.v = V::integer((int64_t)ob.raw.size()); m.d.objs[l] = lo; ob.v.m["Length"] = V::refTo(l, 0);
}
History history(pbt::Src& g, M& m, const Opt& o, unsigned revisions, bool noise, int forceXref) {
    History h; FileWriter w(g); w.noise = noise; w.crypt = o.crypt; if (noise) w.eol = g.pick<const char*>({ "\n", "\r\n", "\r" });
    int64_t next = m.max() + 1; for (auto n : m.nums()) setLength(g, m, n, next, o);
    auto lay = [&] { Layout l; l.xref = forceXref >= 0 ? forceXref : (int)g.draw(2); l.objStreams = l.xref && g.chance(2, 3); return l; };
    std::vector<Layout> ls; for (unsigned r = 0; r < revisions; r++) ls.push_back(lay()); bool modern = false; for (auto& l : ls) modern |= l.xref != 0; if (modern && m.d.version < "1.5") m.d.version = "1.5"; h.layouts = ls; h.revisions = revisions;
    w.header(m.d.version); w.nextFree = m.max() + 1; for (int64_t i = 1; i <= m.max(); i++) if (!m.d.objs.count(i)) h.freed[i] = g.coin() ? 65535 : (uint32_t)g.draw(3);
    V t = m.d.trailer; t.m["Size"] = V::integer(m.max() + 1); w.revision(m.d.objs, h.freed, t, ls[0], true);
    for (unsigned r = 1; r < revisions; r++) {
        std::map<int64_t, Obj> ch; std::map<int64_t, uint32_t> fr; unsigned k = g.size(5); next = std::max(next, w.nextFree);
        auto touch = [&](int64_t n) { ch[n] = m.d.objs[n]; };
        for (unsigned i = 0; i < k; i++) {
            auto ns = m.nums(); std::vector<int64_t> plain; for (auto n : ns) { auto t = m.d.objs[n].v.get("Type"); auto enc = m.d.trailer.get("Encrypt"); bool sys = n == m.root() || (enc && enc->k == K::Ref && enc->i == n) || (t && t->k == K::Name) || (m.d.trailer.get("Info") && m.d.trailer.get("Info")->i == n); bool isLen = false; for (auto& y : m.d.objs) if (y.second.hasStream) { auto l = y.second.v.get("Length"); isLen |= l && l->k == K::Ref && l->i == n; } if (!sys && !isLen) plain.push_back(n); }
            switch (g.draw(4)) {
                case 0: if (!plain.empty()) { auto n = g.pick(plain); m.data.erase(n); m.d.objs[n].hasStream = false; m.d.objs[n].raw.clear(); V v = genValue(g, m, o.values, o.dangling); if (v.k == K::Ref) v = V::arr({ v }); if (v.k == K::Dict) v.m.erase("Type"); m.d.objs[n].v = v; touch(n); } break;
                case 1: if (!plain.empty()) { auto n = g.pick(plain); m.d.objs[n].v = V::dict({ { "VfRev", V::integer((int64_t)r) } }); setStream(g, m, n, genData(g), o.filters); auto before = next; setLength(g, m, n, next, o); touch(n); if (next != before) touch(before); } break;
                case 2: { int64_t n = next++; Obj ob; ob.v = genValue(g, m, o.values, o.dangling); if (ob.v.k == K::Ref) ob.v = V::arr({ ob.v }); if (ob.v.k == K::Dict) ob.v.m.erase("Type"); m.d.objs[n] = ob; touch(n); m.d.objs[m.root()].v.m["VfNew" + std::to_string(n)] = V::refTo(n, 0); touch(m.root()); break; }
                case 3: if (!plain.empty()) { auto n = g.pick(plain); uint32_t gen = m.d.objs[n].gen; m.d.objs.erase(n); m.data.erase(n); ch.erase(n); fr[n] = gen >= 65535 ? 65535 : gen + 1; h.freed[n] = fr[n]; } break;
                default: if (!h.freed.empty()) { auto it = h.freed.begin(); std::advance(it, g.index(h.freed.size())); if (it->second < 65535) { int64_t n = it->first; Obj ob; ob.gen = it->second; ob.v = V::arr({ V::integer(n), V::str("again") }); h.freed.erase(it); fr.erase(n); m.d.objs[n] = ob; touch(n); } }
            }
        }
        for (auto& x : ch) x.second = m.d.objs[x.first];
        w.nextFree = std::max(w.nextFree, next); V t2 = m.d.trailer; t2.m["Size"] = V::integer(w.nextFree); w.revision(ch, fr, t2, ls[r], false); next = std::max(next, w.nextFree);
    }
    // numbers freed and used again by helper objects never happen: helpers take fresh numbers
    h.helpers = w.helper; h.bytes = w.out; h.size = w.nextFree; return h;
}
static struct Scratch { std::string dir; pid_t pid = 0; ~Scratch() { clean(); }
    void clean() { if (dir.empty() || pid != getpid()) return; if (DIR* d = opendir(dir.c_str())) { while (auto e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((dir + "/" + n).c_str()); } closedir(d); } rmdir(dir.c_str()); dir.clear(); } } g_scratch;
std::string scratch(const std::string& name) {
    if (g_scratch.pid != getpid()) { const char* b = getenv("TMPDIR"); std::string t = std::string(b ? b : "/tmp") + "/pdfmm-verif-XXXXXX"; std::vector<char> p(t.begin(), t.end()); p.push_back(0); if (!mkdtemp(p.data())) pbt::fail("scratch", "mkdtemp"); g_scratch.dir = p.data(); g_scratch.pid = getpid(); }
    return g_scratch.dir + "/" + name;
}
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
void spit(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << d; }
}
