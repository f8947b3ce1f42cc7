// C02: every legal spelling of a value reads as that value.
#include "refmm.h"
using namespace mm; using namespace ref; using namespace refmm;
static struct Init { Init() {
    pbt::g_rule = "a case counts when the text differs from the canonical spelling of the value (escapes, radix, white space, comments, signs or key order vary)";
    pbt::g_assumptions = "spellings are those ISO 32000-1 7.2/7.3 allows; raw carriage returns inside literal strings are left out (the library keeps them where ISO 32000 reads a line feed; a stable test pins that)\nnames are at most 127 bytes; object nesting stays below the implementation limit";
} } init;
static GenOpt opt() { GenOpt o; o.depth = 4; o.width = 8; o.maxStr = 60; o.maxObj = 8388607; o.dictNulls = true; return o; }

PROP(C02, value, 30000, 600000, 10) {
    V v = gen(g, opt()); std::string t = spell(v, &g); if (t != spell(v)) g.nontrivial();
    g.trace("value ", show(v)); g.trace("text ", pbt::show(t, 2000));
    // self-check of the oracle: the reference parser agrees with the reference writer
    Lexer lx(t); auto d0 = diff(lx.value(), v, DiffOpt{ 0, true, false }); if (!d0.empty()) throw std::logic_error("reference writer and parser disagree: " + d0);
    std::string tail = g.pick<const char*>({ "\n", " ", "\r\nendobj", "%c", "" }); if (tail.empty() && v.k == K::Int) tail = " ";
    V b = parseMm(t + tail); auto d = diff(b, v, DiffOpt{ 0, true, false }); CHECK("differs", d.empty(), d << " text " << pbt::show(t, 1500));
}
// a run of values separated in any legal way; every one is read, in order, and nothing more
PROP(C02, sequence, 8000, 160000, 10) {
    unsigned n = 1 + g.size(10); std::vector<V> vs; std::string t; auto o = opt(); o.depth = 2; bool refs = g.coin(); o.refs = refs;
    V all = V::arr(); for (unsigned i = 0; i < n; i++) all.a.push_back(gen(g, o));
    std::string s = spell(all, &g);
    // strip the enclosing brackets
    size_t a = s.find('['), e = s.rfind(']'); // comments never hold the outer ones first
    { Lexer lx(s); lx.skipWs(); a = lx.pos; } t = s.substr(a + 1, e - a - 1);
    { // ambiguity: three adjacent tokens "int int R" cannot arise as R is not a value
      Lexer lx(t); lx.allowRefs = refs; try { for (auto& v : all.a) if (!diff(lx.value(), v).empty()) throw std::logic_error("oracle"); if (!lx.atEnd()) return; } catch (SyntaxError&) { return; } }
    g.trace("text ", pbt::show(t, 2000)); if (n > 2) g.nontrivial();
    SpanStreamDevice dev(t.data(), t.size()); PdfTokenizer tok(refs);
    for (unsigned i = 0; i < n; i++) { PdfVariant v; CHECK("short", tok.TryReadNextVariant(dev, v), "item " << i << " of " << n << " not read; text " << pbt::show(t, 1500)); auto d = diff(fromVar(v), all.a[i], DiffOpt{ 0, true, false }); CHECK("differs", d.empty(), "item " << i << " " << d << " text " << pbt::show(t, 1500)); }
    PdfVariant v; bool more = tok.TryReadNextVariant(dev, v); CHECK("extra", !more, "a value beyond the last");
}
// the same bytes give the same value whatever device they come from
PROP(C02, devices, 1500, 20000, 10) {
    V v = gen(g, opt()); std::string t = spell(v, &g) + " "; g.trace("text ", pbt::show(t, 1500)); g.nontrivial();
    std::istringstream ss(t); StandardStreamDevice sd(ss); PdfTokenizer tok; PdfVariant a; tok.ReadNextVariant(sd, a);
    StringStreamDevice st(t, DeviceAccess::Read, false); PdfVariant b; PdfTokenizer tok2; tok2.ReadNextVariant(st, b);
    auto d = diff(fromVar(a), v); CHECK("stream-device", d.empty(), d); d = diff(fromVar(b), v); CHECK("string-device", d.empty(), d);
}
