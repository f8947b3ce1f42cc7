// C01: any value written by the library reads back as the same value.
#include "refmm.h"
using namespace mm; using namespace ref; using namespace refmm;

static struct Init { Init() {
    pbt::g_rule = "a case counts when the generated value is a container with >= 3 nodes, or a string/name holding a byte that needs escaping, or a non-integral real, or an integer beyond 32 bits";
    pbt::g_assumptions = "reals are written with 6 decimals: equality of reals is up to 5e-7\nreference parser ref::Lexer implements ISO 32000-1 7.2-7.3";
} } init;

static unsigned nodes(const V& v) { unsigned n = 1; for (auto& x : v.a) n += nodes(x); for (auto& x : v.m) n += 1 + nodes(x.second); return n; }
static bool special(const V& v) {
    if (v.k == K::Str || v.k == K::Name) for (char c : v.s) if (!isRegular(c) || c < 33 || c > 126 || c == '#' || c == '\\') return true;
    if (v.k == K::Real) return v.d != std::floor(v.d);
    if (v.k == K::Int) return v.i > INT32_MAX || v.i < INT32_MIN;
    return false;
}
static const std::vector<PdfWriteFlags> Flags = { PdfWriteFlags::None, PdfWriteFlags::Clean, PdfWriteFlags::NoInlineLiteral | PdfWriteFlags::Clean };

static V genVal(pbt::Src& g) {
    GenOpt o; o.depth = 4; o.width = 8; o.hugeReals = true; o.maxStr = 120; o.maxObj = 8388607; o.dictNulls = true;
    V v = gen(g, o);
    g.trace("value ", show(v));
    if (nodes(v) >= 3 || special(v)) g.nontrivial();
    return v;
}
static const DiffOpt D{ 5.1e-7, false, true };

PROP(C01, value, 20000, 400000, 10) {
    V v = genVal(g);
    PdfObject o = toObj(v);
    auto d0 = diff(fromObj(o), v, DiffOpt{ 0, true, false });
    CHECK("construct", d0.empty(), "value does not survive construction: " << d0);
    auto fl = g.pick(Flags);
    // bare literals with NoInlineLiteral are only meaningful for scalars at top level, containers need separators (Clean)
    std::string t = writeMm(o.GetVariant(), fl);
    g.trace("text ", pbt::show(t, 1500));
    Lexer lx(t); V a;
    try { a = lx.value(); } catch (SyntaxError& e) { pbt::fail("written-illegal", e.msg + " in " + pbt::show(t, 1500)); }
    CHECK("written-trailing", lx.atEnd(), "extra text after the value: " << pbt::show(t, 1500));
    auto d1 = diff(a, v, D); CHECK("written-differs", d1.empty(), d1 << " text " << pbt::show(t, 1500));
    V b = parseMm(t); auto d2 = diff(b, v, D); CHECK("reread-differs", d2.empty(), d2 << " text " << pbt::show(t, 1500));
    // write . read is idempotent: a second trip gives the same text
    SpanStreamDevice dev(t.data(), t.size()); PdfTokenizer tok; PdfVariant v2; tok.ReadNextVariant(dev, v2);
    std::string t2 = writeMm(v2, fl); CHECK_EQ("not-idempotent", pbt::show(t2, 3000), pbt::show(t, 3000), "");
    std::string ts = o.GetVariant().ToString(); V c = parseMm(ts + " "); auto d3 = diff(c, v, D); CHECK("tostring-differs", d3.empty(), d3 << " text " << pbt::show(ts));
}
// many values written one after another (as operands in a content stream or the body of a file) stay separate
PROP(C01, sequence, 4000, 80000, 10) {
    GenOpt o; o.depth = 2; o.refs = false; unsigned n = 1 + g.size(12); std::vector<V> vs; std::string t; StringStreamDevice out(t); charbuff buf;
    for (unsigned i = 0; i < n; i++) { vs.push_back(gen(g, o)); toObj(vs.back()).GetVariant().Write(out, PdfWriteFlags::None, PdfStatefulEncrypt(), buf); }
    g.trace("text ", pbt::show(t, 1500)); if (n > 2) g.nontrivial();
    Lexer lx(t); lx.allowRefs = false;
    SpanStreamDevice dev(t.data(), t.size()); PdfTokenizer tok(false);
    for (unsigned i = 0; i < n; i++) {
        V a; try { a = lx.value(); } catch (SyntaxError& e) { pbt::fail("seq-illegal", e.msg + " in " + pbt::show(t, 1500)); }
        auto d1 = diff(a, vs[i], D); CHECK("seq-written", d1.empty(), "item " << i << " " << d1);
        PdfVariant v; CHECK("seq-short", tok.TryReadNextVariant(dev, v), "item " << i << " of " << n << " not read");
        auto d2 = diff(fromVar(v), vs[i], D); CHECK("seq-reread", d2.empty(), "item " << i << " " << d2 << " text " << pbt::show(t, 1500));
    }
    PdfVariant v; bool more = tok.TryReadNextVariant(dev, v); CHECK("seq-extra", !more, "a value beyond the last");
}
// indirect objects: "N G obj ... endobj"
PROP(C01, indirect, 6000, 100000, 10) {
    PdfMemDocument doc; V v = genVal(g); if (v.k == K::Ref) v = V::arr({ v });
    unsigned skip = g.size(40); for (unsigned i = 0; i < skip; i++) doc.GetObjects().CreateDictionaryObject();
    PdfObject& o = doc.GetObjects().CreateObject(toObj(v).GetVariant());
    bool st = v.k == K::Dict && g.chance(1, 2); std::string data;
    if (st) { data = g.bytes(300); v.m.erase("Length"); v.m.erase("Filter"); v.m.erase("DecodeParms"); o.GetDictionary() = toObj(v).GetDictionary(); o.GetOrCreateStream().SetData(bufferview(data.data(), data.size()), g.coin()); g.trace("stream ", pbt::show(data, 200)); }
    bool clean = g.coin();
    std::string t; StringStreamDevice out(t); charbuff buf; o.Write(out, clean ? PdfWriteFlags::Clean | PdfWriteFlags::NoFlateCompress : PdfWriteFlags::NoFlateCompress, nullptr, buf);
    g.trace("text ", pbt::show(t, 1500));
    Lexer lx(t);
    try {
        CHECK_EQ("obj-num", lx.integer(), (int64_t)o.GetIndirectReference().ObjectNumber(), ""); CHECK_EQ("obj-gen", lx.integer(), (int64_t)o.GetIndirectReference().GenerationNumber(), "");
        CHECK("obj-kw", lx.accept("obj"), "obj keyword"); V a = lx.value();
        if (st) {
            CHECK("stream-kw", lx.accept("stream"), "stream keyword missing"); if (t[lx.pos] == '\r') lx.pos++; CHECK("stream-eol", t[lx.pos] == '\n', "no EOL"); lx.pos++;
            auto L = a.get("Length"); CHECK("length", L && L->k == K::Int, "no /Length"); std::string raw = t.substr(lx.pos, (size_t)L->i); lx.pos += (size_t)L->i;
            CHECK_EQ("stream-data", pbt::show(decodeStream(a, raw)), pbt::show(data), ""); CHECK("endstream", lx.accept("endstream"), "endstream"); a.m.erase("Length"); a.m.erase("Filter"); a.m.erase("DecodeParms");
        }
        auto d1 = diff(a, v, D); CHECK("obj-differs", d1.empty(), d1); CHECK("endobj", lx.accept("endobj"), "endobj missing"); CHECK("tail", lx.atEnd(), "text after endobj");
    } catch (SyntaxError& e) { pbt::fail("obj-illegal", e.msg + " in " + pbt::show(t, 1500)); }
    // and through the library's own object parser
    SpanStreamDevice dev(t.data(), t.size()); PdfParserObject po(dev, 0);
    po.Parse(); if (po.HasStreamToParse()) po.ParseStream(); V b = fromObj(po); if (st) { CHECK_EQ("reparsed-stream", pbt::show(streamData(po)), pbt::show(data), ""); b.m.erase("Length"); b.m.erase("Filter"); b.m.erase("DecodeParms"); }
    auto d2 = diff(b, v, D); CHECK("obj-reparse", d2.empty(), d2 << " text " << pbt::show(t, 1500));
}
