// C06: streams encoded by other producers decode to their data.
#include "refmm.h"
using namespace mm; using namespace ref; using namespace refmm;
static struct Init { Init() {
    pbt::g_rule = "foreign: data of more than 16 bytes, or a predictor; loaded: more than one filter or a predictor; damaged: the encoding was altered and is longer than 4 bytes";
    pbt::g_assumptions = "reference encoders are checked against the reference decoders on every case\nzlib is trusted\ndata under a predictor is a whole number of rows\nCrypt, CCITT, JBIG2, DCT and JPX data is not decoded by the library and not covered";
} } init;
struct Enc { PdfFilterType t; std::string name; V parms; std::string in, out; bool pred = false; };
static std::string genData(pbt::Src& g, unsigned max) {
    switch (g.weighted({ 4, 2, 2, 2 })) {
        case 0: return g.bytes(std::min(max, 300u));
        case 1: { std::string r; unsigned n = g.size(60); for (unsigned i = 0; i < n && r.size() < max; i++) r.append(g.size(300), (char)(g.coin() ? 0 : g.draw(255))); return r.substr(0, max); }
        case 2: { std::string unit = g.bytes(12), r; unsigned n = g.size(400); for (unsigned i = 0; i < n && r.size() < max; i++) r += unit; return r.substr(0, max); }
        default: { unsigned n = g.size(max); uint64_t s = g.draw(~0ull >> 1), m = g.coin() ? 255 : 3; std::string r(n, 0); for (auto& c : r) { s = s * 6364136223846793005ull + 1442695040888963407ull; c = (char)((s >> 56) & m); } return r; }
    }
}
// encodes `in` one level, as another producer could
static Enc encode(pbt::Src& g, std::string in, bool allowTrim) {
    Enc e; e.parms = V::null();
    unsigned f = (unsigned)g.draw(4);
    if (f >= 3) {
        bool lzw = f == 4; V d = V::dict(); std::string plain; e.t = lzw ? PdfFilterType::LZWDecode : PdfFilterType::FlateDecode; e.name = lzw ? "LZWDecode" : "FlateDecode";
        int early = 1; bool have = false; plain = in;
        if (g.coin()) {
            int pred = g.pick<int>({ 1, 2, 10, 11, 12, 13, 14, 15, 15, 2 }); int colors = g.pick<int>({ 1, 3, 4, 2, 5 }), bpc = g.pick<int>({ 8, 1, 2, 4, 16 }), cols = 1 + (int)g.size(40);
            if (g.chance(1, 4)) { colors = 1; bpc = 8; } size_t row = ((size_t)colors * bpc * cols + 7) / 8;
            if (pred > 1) { if (allowTrim) in.resize(in.size() / row * row); else if (in.size() % row) { colors = cols = 1; bpc = 8; row = 1; }
                // padding bits of a row are not data
                if (pred == 2 && bpc < 8) { size_t bits = (size_t)colors * bpc * cols; if (bits % 8) { if (!allowTrim) { colors = cols = 1; bpc = 8; row = 1; } else for (size_t i = row - 1; i < in.size(); i += row) in[i] = (char)(in[i] & (0xFF << (8 - bits % 8))); } } }
            plain = predictorEncode(in, pred, colors, bpc, cols, &g); CHECK("selfcheck", predictorDecode(plain, pred, colors, bpc, cols) == in, "reference predictor " << pred);
            d.m["Predictor"] = V::integer(pred); if (colors != 1 || g.coin()) d.m["Colors"] = V::integer(colors); if (bpc != 8 || g.coin()) d.m["BitsPerComponent"] = V::integer(bpc); if (cols != 1 || g.coin()) d.m["Columns"] = V::integer(cols); have = true; e.pred = pred > 1;
        }
        if (lzw && g.coin()) { early = (int)g.draw(1); d.m["EarlyChange"] = V::integer(early); have = true; }
        if (have || g.chance(1, 5)) e.parms = d;
        if (lzw) { e.out = lzwEncode(plain, early, &g); CHECK("selfcheck", lzwDecode(e.out, early) == plain, "reference lzw"); } else e.out = deflateAll(plain, (int)g.draw(9));
    } else {
        if (f == 0) { e.t = PdfFilterType::ASCIIHexDecode; e.name = "ASCIIHexDecode"; e.out = hexEncode(in, &g); CHECK("selfcheck", hexDecode(e.out) == in, "reference hex"); }
        if (f == 1) { e.t = PdfFilterType::ASCII85Decode; e.name = "ASCII85Decode"; e.out = a85Encode(in, &g); CHECK("selfcheck", a85Decode(e.out) == in, "reference a85"); }
        if (f == 2) { e.t = PdfFilterType::RunLengthDecode; e.name = "RunLengthDecode"; e.out = rlEncode(in, &g); CHECK("selfcheck", rlDecode(e.out) == in, "reference rl"); }
    }
    e.in = in; return e;
}
static std::vector<std::string> split(pbt::Src& g, const std::string& d) {
    std::vector<std::string> r; size_t p = 0; unsigned mode = (unsigned)g.draw(3);
    while (p < d.size()) { size_t n = mode == 0 ? d.size() : mode == 1 ? 1 : mode == 2 ? 1 + g.size(7) : 1 + g.size(5000); if (mode == 1 && r.size() > 4000) n = d.size(); r.push_back(d.substr(p, n)); p += n; if (g.chance(1, 20)) r.push_back(""); }
    return r;
}
static std::string cstr(const charbuff& b) { return std::string(b.data(), b.size()); }
PROP(C06, foreign, 40000, 1000000, 20) {
    std::shared_ptr<PdfFilter> f; unsigned rounds = 1 + g.size(2);
    for (unsigned i = 0; i < rounds; i++) {
        Enc e = encode(g, genData(g, 9000), true); if (!f || f->GetType() != e.t) f = PdfFilterFactory::Create(e.t); CHECK("factory", f && f->CanDecode() && f->GetType() == e.t, e.name); g.label(e.name + (e.pred ? "+predictor" : ""));
        g.trace(e.name, " ", show(e.parms), " ", e.in.size(), " bytes ", pbt::show(e.in, 150), " encoded ", pbt::show(e.out, 300)); if (e.in.size() > 16 || e.pred) g.nontrivial();
        PdfObject parms; const PdfDictionary* pd = nullptr; if (e.parms.k == K::Dict) { parms = toObj(e.parms); pd = &parms.GetDictionary(); }
        charbuff b; f->DecodeTo(b, bufferview(e.out.data(), e.out.size()), pd); CHECK("decode", cstr(b) == e.in, "got " << pbt::show(cstr(b)) << " want " << pbt::show(e.in));
        std::string out; { StringStreamDevice dev(out); f->BeginDecode(dev, pd); for (auto& c : split(g, e.out)) f->DecodeBlock(bufferview(c.data(), c.size())); f->EndDecode(); } CHECK("decode-chunks", out == e.in, "got " << pbt::show(out) << " want " << pbt::show(e.in));
    }
}
PROP(C06, loaded, 12000, 300000, 20) {
    unsigned n = g.weighted({ 1, 5, 4, 2, 1 }); std::string data = genData(g, 3000), cur = data; V names = V::arr(), parms = V::arr(); bool anyParms = false, pred = false;
    for (unsigned i = 0; i < n; i++) { Enc e = encode(g, cur, i == 0); if (i == 0) data = e.in; cur = e.out; names.a.insert(names.a.begin(), V::name(e.name)); parms.a.insert(parms.a.begin(), e.parms); anyParms |= e.parms.k == K::Dict; pred |= e.pred; }
    if (n > 1 || pred) g.nontrivial(); g.label(std::to_string(n) + " filters");
    V filter = names, dp = parms; if (n == 1 && g.coin()) filter = names.a[0]; if (n == 1 && filter.k == K::Name) dp = parms.a[0];
    FileWriter w(g); w.noise = false; w.header("1.7"); std::map<int64_t, Obj> os; os[1].v = V::dict({ { "Type", V::name("Catalog") }, { "Pages", V::refTo(2) } }); os[2].v = V::dict({ { "Type", V::name("Pages") }, { "Kids", V::arr() }, { "Count", V::integer(0) } });
    Obj o; o.hasStream = true; o.raw = cur; o.v = V::dict({ { "Length", V::integer((int64_t)cur.size()) } }); int64_t next = 4;
    auto maybeRef = [&](V v) { if (!g.chance(1, 4)) return v; Obj x; x.v = v; os[next] = x; return V::refTo(next++); };
    if (n || g.coin()) { if (filter.k == K::Arr) for (auto& x : filter.a) x = maybeRef(x); o.v.m["Filter"] = maybeRef(filter); }
    if (anyParms || (n && g.coin())) { if (dp.k == K::Arr) for (auto& x : dp.a) { if (x.k == K::Dict) for (auto& y : x.m) y.second = maybeRef(y.second); x = maybeRef(x); } else if (dp.k == K::Dict) for (auto& y : dp.m) y.second = maybeRef(y.second); o.v.m["DecodeParms"] = maybeRef(dp); }
    if (g.chance(1, 4)) { Obj x; x.v = o.v.m["Length"]; os[next] = x; o.v.m["Length"] = V::refTo(next++); }
    os[3] = o; w.nextFree = next; w.revision(os, {}, V::dict({ { "Root", V::refTo(1) }, { "Size", V::integer(next) } }), Layout{}, true);
    g.trace(show(o.v), " ", pbt::show(data, 200), " encoded ", pbt::show(cur, 300));
    PdfMemDocument doc; doc.LoadFromBuffer(bufferview(w.out.data(), w.out.size())); auto po = doc.GetObjects().GetObject(PdfReference(3, 0)); CHECK("lost", po && po->HasStream(), "stream lost"); auto& st = po->MustGetStream();
    auto want = [&](const char* how, const std::string& got) { CHECK("content", got == data, how << ": got " << pbt::show(got) << " want " << pbt::show(data)); };
    if (g.coin()) want("GetCopy", cstr(st.GetCopy())); 
    { auto in = st.GetInputStream(); std::string r; char buf[4096]; unsigned m = (unsigned)g.draw(2); for (unsigned k = 0; k < 100000; k++) { if (m == 1 && k < 2000) { char c; if (!in.Read(c)) break; r += c; continue; } bool eof = false; size_t sz = m == 2 ? 1 + g.size(9) : sizeof buf; if (k > 3000) sz = sizeof buf; size_t got = in.Read(buf, sz, eof); r.append(buf, got); if (eof) break; } want("input stream", r); }
    { std::string x; StringStreamDevice d(x); st.CopyTo(d); want("CopyTo", x); }
    charbuff raw; st.CopyTo(raw, true); CHECK("raw", cstr(raw) == cur, "raw copy differs");
    if (g.coin()) { st.Unwrap(); want("GetCopy after Unwrap", cstr(st.GetCopy())); V d = fromObj(*po); if (n) CHECK("unwrapped", !d.get("Filter"), show(d)); }
}
PROP(C06, damaged, 40000, 1500000, 10) {
    Enc e = encode(g, genData(g, 4000), true); std::string s = e.out; unsigned n = 1 + g.size(6);
    for (unsigned i = 0; i < n && !s.empty(); i++) { size_t p = g.draw(s.size() - 1); switch (g.draw(6)) { case 0: s[p] = (char)g.draw(255); break; case 1: s.resize(p); break; case 2: s.erase(p, 1 + g.size(8)); break; case 3: s.insert(p, g.bytes(8)); break; case 4: s[p] ^= (char)(1 << g.draw(7)); break; case 5: s.insert(p, s.substr(g.draw(s.size() - 1), 1 + g.size(40))); break; default: s += g.bytes(10); } }
    if (g.chance(1, 4)) { if (e.parms.k != K::Dict) e.parms = V::dict(); for (auto k : { "Predictor", "Colors", "BitsPerComponent", "Columns", "EarlyChange" }) if (g.chance(1, 3)) e.parms.m[k] = g.chance(1, 5) ? V::name("x") : V::integer(g.coin() ? g.range(-3, 40) : g.i64()); }
    if (s != e.out && s.size() > 4) g.nontrivial(); g.trace(e.name, " ", show(e.parms), " ", pbt::show(s, 600)); g.label(e.name);
    PdfObject parms; const PdfDictionary* pd = nullptr; if (e.parms.k == K::Dict) { parms = toObj(e.parms); pd = &parms.GetDictionary(); }
    auto f = PdfFilterFactory::Create(e.t); std::string a, b; bool ea = false, eb = false;
    try { StringStreamDevice dev(a); f->DecodeTo(dev, bufferview(s.data(), s.size()), pd); } catch (PdfError&) { ea = true; }
    try { StringStreamDevice dev(b); f->BeginDecode(dev, pd); for (auto& c : split(g, s)) f->DecodeBlock(bufferview(c.data(), c.size())); f->EndDecode(); } catch (PdfError&) { eb = true; }
    g.label(ea ? "refused" : "accepted"); CHECK("chunks-differ", ea == eb && (ea || a == b), "the outcome depends on how the data is chunked: " << ea << " " << pbt::show(a) << " / " << eb << " " << pbt::show(b));
    // the filter is usable again afterwards
    auto fl = PdfFilterFactory::Create(e.t); PdfObject p2; const PdfDictionary* pd2 = nullptr; Enc e2 = encode(g, "again", true); if (e2.t == e.t) { if (e2.parms.k == K::Dict) { p2 = toObj(e2.parms); pd2 = &p2.GetDictionary(); } charbuff o; f->DecodeTo(o, bufferview(e2.out.data(), e2.out.size()), pd2); CHECK("reuse", cstr(o) == e2.in, "the filter is unusable after damaged data"); }
}
