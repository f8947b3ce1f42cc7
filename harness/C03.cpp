// C03: strings and names keep their text.
#include "refmm.h"
#include <pdfmm/private/PdfEncodingPrivate.h>
using namespace mm; using namespace ref; using namespace refmm;
static struct Init { Init() {
    pbt::g_rule = "a case counts when the text holds a character outside ASCII, a character that needs escaping, or a byte sequence that looks like a byte-order mark";
    pbt::g_assumptions = "stored strings are valid in their encoding (code points exist, UTF-16 is well formed); names hold no NUL\ncode 0x16 of PDFDocEncoding, which ISO 32000-1 and -2 assign differently, is not used";
} } init;

// a character repertoire that concentrates on the edges of PDFDocEncoding and of UTF-16
static std::vector<uint32_t> text(pbt::Src& g, int rep, unsigned maxlen = 24) {
    std::vector<uint32_t> r = genText(g, maxlen, rep);
    if (g.chance(1, 4)) { // byte-order-mark look-alikes
        static const std::vector<std::vector<uint32_t>> B = { { 0xFE, 0xFF }, { 0xFF, 0xFE }, { 0xEF, 0xBB, 0xBF }, { 0xEF, 0xBB }, { 0xFE }, { 0xFF } };
        auto& b = g.pick(B); r.insert(r.begin(), b.begin(), b.end());
        if (rep == 3 && g.chance(1, 3)) { r.insert(r.begin(), 0xFEFF); }
    }
    if (g.chance(1, 5)) { unsigned n = 1 + g.size(4); static const uint32_t S[] = { 9, 10, 13, 8, 12, '(', ')', '\\', '<', '>', '%', '/', '#', 27, 1, 0x15, 0x17, 0x2DC, 0x20AC, 0x2022, 0x17E };
        for (unsigned i = 0; i < n; i++) r.insert(r.begin() + g.draw(r.size()), S[g.index(21)]); }
    return r;
}
static bool interesting(const std::vector<uint32_t>& t) { for (auto c : t) if (c > 126 || c < 32 || strchr("()\\", (int)c)) return true; return false; }
// bytes of `t` in a chosen encoding; PDFDocEncoding only where it can
static bool inDoc(const std::vector<uint32_t>& t, std::string* out = nullptr) {
    std::string r; for (auto c : t) { int f = -1; if (c < 0x18 && c != 0x16) f = (int)c; else if (c) for (int i = 24; i < 256; i++) if (PdfDoc[i] == c) f = i; if (f < 0) return false; r += (char)f; }
    if (r.substr(0, 2) == "\xFE\xFF" || r.substr(0, 2) == "\xFF\xFE" || r.substr(0, 3) == "\xEF\xBB\xBF") return false;
    if (out) *out = r; return true;
}
static std::string stored(pbt::Src& g, const std::vector<uint32_t>& t, const char** how = nullptr) {
    std::string d; bool doc = inDoc(t, &d); int k = (int)g.draw(doc ? 2 : 1); const char* h; std::string r;
    if (k == 0) { r = "\xFE\xFF" + utf16be(t); h = "utf-16"; } else if (k == 1) { r = "\xEF\xBB\xBF" + utf8(t); h = "utf-8"; } else { r = d; h = "pdfdoc"; }
    if (how) *how = h; return r;
}
static std::string readBytes(const std::string& b) {  // what a conforming reader makes of the bytes
    if (b.substr(0, 2) == "\xFE\xFF" || b.substr(0, 3) == "\xEF\xBB\xBF") return bytesText(b);
    std::string r; for (unsigned char c : b) appendUtf8(r, c < 0x18 ? c : PdfDoc[c]); return r;
}
static PdfString reparse(const std::string& t) { SpanStreamDevice dev(t.data(), t.size()); PdfTokenizer tok; PdfVariant v; tok.ReadNextVariant(dev, v); CHECK("not-a-string", v.IsString(), "read back as " << v.GetDataTypeString()); return v.GetString(); }
static std::string bytesOf(const std::string& t) { Lexer lx(t); V v = lx.value(); CHECK("written-kind", v.k == K::Str && lx.atEnd(), "not written as one string: " << pbt::show(t)); return v.s; }

PROP(C03, text, 20000, 800000, 10) {
    auto cps = text(g, (int)g.draw(3)); std::string u = utf8(cps); g.trace("text ", pbt::show(u)); if (interesting(cps)) g.nontrivial();
    PdfString s(u); CHECK_EQ("construct", pbt::show(s.GetString()), pbt::show(u), ""); CHECK_EQ("empty", s.IsEmpty(), u.empty(), "");
    std::string w = writeMm(PdfVariant(s)); g.trace("written ", pbt::show(w)); std::string b;
    try { b = bytesOf(w); CHECK_EQ("written-text", pbt::show(readBytes(b)), pbt::show(u), "bytes " << pbt::hex(b)); } catch (SyntaxError& e) { pbt::fail("written-illegal", e.msg); }
    PdfString r = reparse(w); CHECK_EQ("reread", pbt::show(r.GetString()), pbt::show(u), "bytes " << pbt::hex(b));
    // hexadecimal notation of the same bytes
    PdfString h = PdfString::FromRaw(bufferview(b.data(), b.size()), true); std::string wh = writeMm(PdfVariant(h)); CHECK("hex-form", wh[0] == '<', "not hexadecimal"); CHECK_EQ("hex-bytes", pbt::hex(bytesOf(wh)), pbt::hex(b), "");
    CHECK_EQ("hex-text", pbt::show(reparse(wh).GetString()), pbt::show(u), "");
    // reading the text must not change what is written
    (void)h.GetString(); std::string wh2 = writeMm(PdfVariant(h)); CHECK_EQ("evaluated-write", pbt::show(readBytes(bytesOf(wh2))), pbt::show(u), "after the text was read"); CHECK("evaluated-hex", wh2[0] == '<' && h.IsHex(), "hex flag lost");
    PdfString hd = PdfString::FromHexData(wh.substr(1, wh.size() - 2)); CHECK_EQ("fromhexdata", pbt::show(hd.GetString()), pbt::show(u), "");
    std::string digits = wh.substr(1, wh.size() - 2); if (!digits.empty() && digits.back() == '0') { digits.pop_back(); PdfString odd = PdfString::FromHexData(digits); CHECK_EQ("fromhexdata-odd", pbt::show(odd.GetString()), pbt::show(u), ""); }
}
PROP(C03, stored, 12000, 500000, 10) {
    auto cps = text(g, (int)g.draw(3)); const char* how; std::string b = stored(g, cps, &how), u = utf8(cps); g.trace(how, " bytes ", pbt::hex(b)); g.label(how); if (interesting(cps)) g.nontrivial();
    std::string t = spell(V::str(b, g.coin()), &g); g.trace("spelled ", pbt::show(t));
    PdfString s = reparse(t + " "); PdfString copy = s; CHECK_EQ("raw", pbt::hex(strRaw(s)), pbt::hex(b), "");
    std::string w0 = writeMm(PdfVariant(s)); CHECK_EQ("raw-write", pbt::hex(bytesOf(w0)), pbt::hex(b), "an unread string must be written as it was read");
    CHECK_EQ("text", pbt::show(s.GetString()), pbt::show(u), how); CHECK_EQ("text-again", pbt::show(s.GetString()), pbt::show(u), how); CHECK_EQ("copy-text", pbt::show(copy.GetString()), pbt::show(u), how);
    std::string w = writeMm(PdfVariant(s)); CHECK_EQ("rewrite", pbt::show(readBytes(bytesOf(w))), pbt::show(u), how << " written " << pbt::show(w));
    CHECK_EQ("rewrite-reread", pbt::show(reparse(w).GetString()), pbt::show(u), how);
    std::string_view sv = reparse(t + " "); (void)sv;
}
// equality is equality of text, however the strings came about
static PdfString make(pbt::Src& g, const std::vector<uint32_t>& t, std::string& how) {
    const char* h = "utf8 constructor"; PdfString s;
    switch (g.draw(4)) {
        case 0: s = PdfString(utf8(t)); break;
        case 1: { auto b = stored(g, t, &h); s = PdfString::FromRaw(bufferview(b.data(), b.size()), g.coin()); break; }
        case 2: { auto b = stored(g, t, &h); s = reparse(spell(V::str(b, g.coin()), &g) + " "); break; }
        case 3: { PdfString q(utf8(t)); s = q; h = "copied"; break; }
        default: s = reparse(writeMm(PdfVariant(PdfString(utf8(t))))); h = "rewritten";
    }
    bool ev = g.coin(); if (ev) (void)s.GetString(); how = std::string(h) + (ev ? " (read)" : ""); return s;
}
PROP(C03, equality, 20000, 800000, 10) {
    auto a = text(g, (int)g.draw(3), 8), b = a;
    if (g.coin()) { if (g.coin() || b.empty()) b = text(g, (int)g.draw(3), 8); else switch (g.draw(2)) { case 0: b.pop_back(); break; case 1: b.push_back(b[0]); break; default: b[g.index(b.size())] ^= 1; if (b.back() == 0) b.back() = 0x41; } }
    for (auto& c : b) if (c == 0x16) c = 0x41; else if (c >= 0xD800 && c < 0xE000) c = 0x41; else if (c == 0) c = 0x41;
    std::string ha, hb; PdfString x = make(g, a, ha), y = make(g, b, hb); g.trace(pbt::show(utf8(a)), " ", ha, " | ", pbt::show(utf8(b)), " ", hb); if (ha != hb && (interesting(a) || interesting(b))) g.nontrivial();
    bool same = a == b; g.label(same ? "equal" : "different"); std::string ctx = ha + " against " + hb;
    CHECK_EQ("eq", x == y, same, ctx); CHECK_EQ("eq-sym", y == x, same, ctx); CHECK_EQ("neq", x != y, !same, ctx); CHECK("refl", x == x && !(x != x), ctx);
    std::string ub = utf8(b), ua = utf8(a); CHECK_EQ("eq-view", x == std::string_view(ub), same, ctx); CHECK_EQ("neq-view", x != std::string_view(ub), !same, ctx); CHECK_EQ("eq-str", x == ub, same, ctx);
    if (ub.find('\0') == std::string::npos) { CHECK_EQ("eq-cstr", x == ub.c_str(), same, ctx); CHECK_EQ("neq-cstr", x != ub.c_str(), !same, ctx); }
    CHECK_EQ("eq-variant", PdfVariant(x) == PdfVariant(y), same, ctx); CHECK_EQ("neq-variant", PdfVariant(x) != PdfVariant(y), !same, ctx);
    CHECK_EQ("text-after", pbt::show(x.GetString()), pbt::show(ua), "comparison changed the text"); CHECK_EQ("text-after", pbt::show(y.GetString()), pbt::show(ub), "comparison changed the text");
}
PROP(C03, names, 20000, 800000, 10) {
    std::string a = genName(g, true), b = g.coin() ? a : genName(g, true); if (a.find('\0') != std::string::npos || b.find('\0') != std::string::npos) return;
    PdfName x = nameOf(a), y = nameOf(b); g.trace("names ", pbt::show(a), " ", pbt::show(b));
    bool sp = false; for (char c : a) if (!isRegular(c) || c < 33 || c > 126 || c == '#') sp = true; if (sp) g.nontrivial();
    CHECK_EQ("raw", pbt::hex(x.GetRawData()), pbt::hex(a), "");
    std::string w = writeMm(PdfVariant(x)); Lexer lx(w); V v; try { v = lx.value(); } catch (SyntaxError& e) { pbt::fail("written-illegal", e.msg); } CHECK("written", v.k == K::Name && lx.atEnd(), pbt::show(w)); CHECK_EQ("written", pbt::hex(v.s), pbt::hex(a), pbt::show(w));
    CHECK_EQ("escaped", "/" + x.GetEscapedName(), w, ""); CHECK_EQ("unescape", pbt::hex(PdfName::FromEscaped(x.GetEscapedName()).GetRawData()), pbt::hex(a), "");
    std::string sp2 = spell(V::name(a), &g); CHECK_EQ("foreign-escape", pbt::hex(PdfName::FromEscaped(sp2.substr(sp2.rfind('/') + 1)).GetRawData()), pbt::hex(a), pbt::show(sp2));
    CHECK_EQ("eq", x == y, a == b, ""); CHECK_EQ("neq", x != y, a != b, ""); CHECK_EQ("lt", x < y, a < b, ""); CHECK_EQ("gt", y < x, b < a, ""); CHECK_EQ("null", x.IsNull(), a.empty(), "");
    std::hash<PdfName> H; if (a == b) CHECK_EQ("hash", H(x), H(nameOf(b)), "");
    PdfName z = x; (void)z.GetString(); CHECK_EQ("raw-after", pbt::hex(z.GetRawData()), pbt::hex(a), "reading the text changed the name"); CHECK("eq-after", z == x && H(z) == H(x), "reading the text changed the name");
}
PROP(C03, nametext, 12000, 400000, 10) {
    auto cps = text(g, (int)g.draw(3), 12); for (auto& c : cps) if (!c) c = 'a'; std::string u = utf8(cps), d; g.trace("text ", pbt::show(u)); if (interesting(cps)) g.nontrivial();
    std::string want; bool ok = true; for (auto c : cps) { std::string e; if (!inDoc({ c }, &e)) { ok = false; break; } want += e; }
    try { PdfName n(u); CHECK("accepted", ok, "a name that PDFDocEncoding cannot hold was accepted"); CHECK_EQ("text", pbt::show(n.GetString()), pbt::show(u), "");
        CHECK_EQ("raw", pbt::hex(n.GetRawData()), pbt::hex(want), ""); CHECK("eq-text", n == std::string_view(u) && !(n != u), "not equal to its own text");
        PdfName m = nameOf(n.GetRawData()); CHECK_EQ("raw-text", pbt::show(m.GetString()), pbt::show(u), ""); CHECK("eq", m == n && n == m && m == u, "");
        PdfName r = PdfName::FromEscaped(n.GetEscapedName()); CHECK_EQ("escaped-text", pbt::show(r.GetString()), pbt::show(u), "");
        CHECK("other", !(n == std::string_view(u + "x")) && n != u + "x", "equal to another text");
    } catch (PdfError& e) { CHECK("refused", !ok, "a representable name was refused: " << pbt::show(u)); }
}
// a document keeps its texts through saving and loading
PROP(C03, document, 400, 8000, 20) {
    PdfMemDocument doc; unsigned n = 1 + g.size(6); std::vector<std::string> us; PdfArray arr; PdfDictionary names;
    for (unsigned i = 0; i < n; i++) { auto t = text(g, 3); us.push_back(utf8(t)); std::string how; arr.Add(make(g, t, how)); }
    auto& o = doc.GetObjects().CreateObject(PdfVariant(arr)); doc.GetCatalog().GetDictionary().AddKey("Verif", o.GetIndirectReference()); g.nontrivial();
    std::string f = save(doc); PdfMemDocument in; in.LoadFromBuffer(bufferview(f.data(), f.size()));
    auto& a = in.GetCatalog().GetDictionary().MustFindKey("Verif").GetArray(); CHECK_EQ("count", a.size(), us.size(), "");
    for (unsigned i = 0; i < n; i++) CHECK_EQ("doc-text", pbt::show(a[i].GetString().GetString()), pbt::show(us[i]), i);
}
