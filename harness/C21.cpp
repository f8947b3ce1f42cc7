// C21: text drawn with fonts, its widths, and its extraction.
#include "refdoc.h"
#include "reftext.h"
#include <cmath>
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_OUTLINE_H
using namespace mm; using namespace ref; using namespace refmm; using reftext::Enc; using reftext::CMap;
static struct Init { Init() {
    pbt::g_rule = "text is drawn with an embedded or CID keyed font, through a transformation, or the widths come from a font of a file";
    pbt::g_assumptions = "lines of text are apart from each other; words within them are separated by spaces that are shown\ncharacters of a font used together have glyphs of their own (two characters that share a glyph cannot be told apart in a subset)\nvertical writing, Type 3 fonts and rotated pages are not covered; text that is not horizontal is shown in one string\nword spacing (Tw) is zero where lengths are compared\nthe fonts are those of the sandbox (DejaVu) and the standard 14 ones";
} } init;
static FT_Library lib() { static FT_Library l = [] { FT_Library x; FT_Init_FreeType(&x); return x; }(); return l; }
struct Face { FT_Face f = nullptr, own = nullptr; std::string data; std::vector<uint32_t> cps, win, mac; };
static Face& face(const std::string& file) {
    static std::map<std::string, Face> all; Face& f = all[file]; if (f.f) return f;
    f.data = refdoc::slurp("/usr/share/fonts/truetype/dejavu/" + file); if (FT_New_Memory_Face(lib(), (const FT_Byte*)f.data.data(), (FT_Long)f.data.size(), 0, &f.f)) throw std::runtime_error("font " + file);
    if (FT_New_Memory_Face(lib(), (const FT_Byte*)f.data.data(), (FT_Long)f.data.size(), 0, &f.own)) throw std::runtime_error("font " + file);
    FT_Select_Charmap(f.f, FT_ENCODING_UNICODE); std::set<FT_UInt> seen; FT_UInt gi; FT_ULong c = FT_Get_First_Char(f.f, &gi);
    while (gi) { if (c > 32 && !(c >= 0x7F && c <= 0xA0) && c != 0xAD && !(c >= 0x2000 && c <= 0x206F) && c != 0x1680 && c != 0x3000 && c != 0xFEFF && !(c >= 0x300 && c < 0x370) && seen.insert(gi).second) f.cps.push_back((uint32_t)c); c = FT_Get_Next_Char(f.f, c, &gi); }
    for (int e = 0; e < 2; e++) for (unsigned b = 33; b < 256; b++) { uint32_t u = reftext::decode(e ? Enc::MacRoman : Enc::WinAnsi, (uint8_t)b); if (u && std::find(f.cps.begin(), f.cps.end(), u) != f.cps.end()) (e ? f.mac : f.win).push_back(u); }
    return f;
}
struct Outline { std::vector<std::pair<long, long>> pts; std::vector<int> tags, ends; long adv = 0; bool operator==(const Outline& o) const { return pts == o.pts && tags == o.tags && ends == o.ends && adv == o.adv; } };
static bool outline(FT_Face f, FT_UInt gid, Outline& o) { if (FT_Load_Glyph(f, gid, FT_LOAD_NO_SCALE | FT_LOAD_NO_BITMAP)) return false; auto& s = f->glyph->outline; o = Outline(); o.adv = f->glyph->metrics.horiAdvance; for (int i = 0; i < s.n_points; i++) { o.pts.push_back({ s.points[i].x, s.points[i].y }); o.tags.push_back(s.tags[i] & 3); } for (int i = 0; i < s.n_contours; i++) o.ends.push_back(s.contours[i]); return true; }
struct Fnt { PdfFont* f = nullptr; Face* face = nullptr; std::vector<uint32_t> cps; int enc = 0, flags = 0; bool std14 = false; std::string name; };
struct Mx { double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0; };
struct Line { std::vector<uint32_t> cps; int font; double size, tz, tc, x, y, X, Y, k, len; std::vector<double> adv; };
static double rnd(pbt::Src& g, int64_t lo, int64_t hi) { return (double)g.range(lo * 4, hi * 4) / 4; }
// width of a character in the font, in glyph space
static double advance(const Fnt& f, uint32_t cp) { if (f.face) { FT_Load_Glyph(f.face->f, FT_Get_Char_Index(f.face->f, cp), FT_LOAD_NO_SCALE | FT_LOAD_NO_BITMAP); return (double)f.face->f->glyph->metrics.horiAdvance / f.face->f->units_per_EM * 1000; } unsigned gid; if (!f.f->GetMetrics().TryGetGID(cp, gid)) return 0; return f.f->GetMetrics().GetGlyphWidth(gid) * 1000; }
static const char* const g_files[] = { "DejaVuSans.ttf", "DejaVuSansMono.ttf", "DejaVuSerif.ttf", "DejaVuSans-Bold.ttf" };
static Fnt makeFont(pbt::Src& g, PdfMemDocument& doc, std::set<std::string>& used) {
    Fnt r; r.flags = (int)g.weighted({ 4, 2, 4, 1, 2, 1, 2, 1 }); r.enc = (int)g.weighted({ 4, 2, 4 }); r.std14 = g.chance(2, 5); PdfFontCreateParams p; p.Flags = (PdfFontCreateFlags)r.flags;
    if (r.enc == 2 && (r.flags & 4)) r.enc = 0;       // a simple font needs an encoding
    
    if (r.enc == 0) p.Encoding = PdfEncodingFactory::CreateWinAnsiEncoding(); else if (r.enc == 1) p.Encoding = PdfEncodingFactory::CreateMacRomanEncoding();
    if (r.std14) {
        static const std::vector<PdfStandard14FontType> types{ PdfStandard14FontType::Helvetica, PdfStandard14FontType::TimesRoman, PdfStandard14FontType::Courier, PdfStandard14FontType::HelveticaBold, PdfStandard14FontType::TimesItalic, PdfStandard14FontType::CourierBoldOblique, PdfStandard14FontType::TimesBoldItalic };
        int t = (int)g.draw(types.size() - 1); r.name = "std" + std::to_string(t) + "/" + std::to_string(r.enc); r.f = doc.GetFonts().GetStandard14Font(types[(size_t)t], p); for (unsigned b = 33; b < 256; b++) { uint32_t u = reftext::decode(r.enc ? Enc::MacRoman : Enc::WinAnsi, (uint8_t)b); unsigned gid; if (u > 32 && u != 0xA0 && u != 0xAD && r.f->GetMetrics().TryGetGID(u, gid)) r.cps.push_back(u); }
    } else {
        int t = (int)g.draw(3); r.face = &face(g_files[t]); r.name = std::string(g_files[t]) + "/" + std::to_string(r.enc); r.f = doc.GetFonts().GetFont(r.face->own, p); r.cps = r.enc == 0 ? r.face->win : r.enc == 1 ? r.face->mac : r.face->cps;
    }
    r.name += " flags " + std::to_string(r.flags); used.insert(r.name); g.trace("font ", r.name); return r;
}
static std::vector<uint32_t> words(pbt::Src& g, const Fnt& f, unsigned maxWords = 4) { std::vector<uint32_t> s; unsigned n = (unsigned)g.range(1, maxWords); for (unsigned w = 0; w < n; w++) { if (w) s.push_back(' '); unsigned l = (unsigned)g.range(1, 8); bool ascii = g.chance(1, 3); for (unsigned i = 0; i < l; i++) { uint32_t c = ascii ? 0 : g.pick(f.cps); if (ascii) { c = (uint32_t)g.range('A', 'z'); if (std::find(f.cps.begin(), f.cps.end(), c) == f.cps.end()) c = 'a'; } s.push_back(c); } } return s; }
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.4f", v); return b; }
static std::string showEntries(const std::vector<PdfTextEntry>& e) { std::string s; for (auto& x : e) s += pbt::show(x.Text) + " at " + num(x.X) + " " + num(x.Y) + " length " + num(x.Length) + "; "; return s; }
static std::string showLine(const Line& l) { return pbt::show(utf8(l.cps)) + " at " + num(l.X) + " " + num(l.Y) + " length " + num(l.len); }
static double lenOf(const Line& l, size_t a, size_t b) { double s = 0; for (size_t i = a; i < b; i++) s += l.adv[i]; return s; }
// The expected entries
struct Want { std::string text; double x, y, len; };
static std::vector<Want> wantWords(const Line& l) { std::vector<Want> r; size_t i = 0; while (i < l.cps.size()) { if (l.cps[i] == ' ') { i++; continue; } size_t j = i; while (j < l.cps.size() && l.cps[j] != ' ') j++; std::vector<uint32_t> w(l.cps.begin() + (long)i, l.cps.begin() + (long)j); double off = lenOf(l, 0, i); r.push_back({ utf8(w), l.X + off, l.Y, lenOf(l, i, j) }); i = j; } return r; }
static void compareEntries(const char* tag, const std::vector<PdfTextEntry>& e, const std::vector<Want>& w, double tol) {
    auto all = [&]() { std::string s; for (auto& x : w) s += pbt::show(x.text) + " at " + num(x.x) + " " + num(x.y) + " length " + num(x.len) + "; "; return s; };
    CHECK(tag, e.size() == w.size(), "extracted " + std::to_string(e.size()) + " entries: " + showEntries(e) + " instead of " + all());
    for (size_t i = 0; i < w.size(); i++) { CHECK(tag, e[i].Text == w[i].text, "text " + pbt::show(e[i].Text) + " instead of " + pbt::show(w[i].text) + " in " + showEntries(e)); CHECK(tag, std::fabs(e[i].X - w[i].x) <= tol && std::fabs(e[i].Y - w[i].y) <= tol, "entry " + pbt::show(w[i].text) + " is at " + num(e[i].X) + " " + num(e[i].Y) + " instead of " + num(w[i].x) + " " + num(w[i].y)); CHECK(tag, std::fabs(e[i].Length - w[i].len) <= tol, "entry " + pbt::show(w[i].text) + " has length " + num(e[i].Length) + " instead of " + num(w[i].len)); }
}
static std::vector<Want> contents(const std::vector<Line>& lines, bool tokens) { std::vector<Want> r; for (auto& l : lines) if (tokens) { auto w = wantWords(l); r.insert(r.end(), w.begin(), w.end()); } else r.push_back({ utf8(l.cps), l.X, l.Y, l.len }); return r; }
// What a reader of the file makes of the strings shown on the page
struct Shown { std::string font, str; };
static std::vector<Shown> scan(const std::string& content) {
    std::vector<Shown> r; Lexer lx(content); lx.allowRefs = false; std::vector<V> st; std::string font; std::vector<std::string> saved;
    while (!lx.atEnd()) { char c = content[lx.pos]; if (c == '/' || c == '(' || c == '<' || c == '[' || c == '-' || c == '+' || c == '.' || (c >= '0' && c <= '9')) { st.push_back(lx.value()); continue; }
        std::string op = lx.keyword(); if (op.empty()) throw SyntaxError{ "content stream", lx.pos }; if (op == "Tf") font = st.at(0).s; else if (op == "q") saved.push_back(font); else if (op == "Q") { font = saved.at(saved.size() - 1); saved.pop_back(); } else if (op == "Tj") r.push_back({ font, st.at(0).s }); st.clear(); }
    return r;
}
static V key(const Doc& d, const V& dict, const char* k) { auto* p = resolve(d, dict).get(k); return p ? resolve(d, *p) : V::null(); }
static std::string streamOf(const Doc& d, const V& dict, const char* k) { auto* p = resolve(d, dict).get(k); if (!p || p->k != K::Ref) return ""; auto it = d.objs.find(p->i); if (it == d.objs.end() || !it->second.hasStream) return ""; return decodeStream(it->second.v, it->second.raw, &d); }
struct Reader { // a font of a file, read by the specification
    const Doc& d; V font; CMap enc, uni; bool cid = false, identity = false; std::map<uint32_t, double> w; double dw = 1000; int first = 0; std::vector<V> widths; Enc base = Enc::Standard; std::string file; FT_Face ft = nullptr; bool hasUni = false;
    Reader(const Doc& d, const V& f) : d(d), font(resolve(d, f)) {
        std::string sub = key(d, font, "Subtype").s; std::string u = streamOf(d, font, "ToUnicode"); hasUni = !u.empty(); if (hasUni) uni = parse(u, "ToUnicode"); cid = sub == "Type0"; V desc;
        if (cid) {
            V e = key(d, font, "Encoding"); if (e.k == K::Name) { identity = true; CHECK("font-encoding", e.s == "Identity-H", "encoding " + e.s); } else enc = parse(streamOf(d, font, "Encoding"), "Encoding");
            V de = key(d, font, "DescendantFonts"); CHECK("font-descendant", de.k == K::Arr && de.a.size() == 1, "DescendantFonts is " + ref::show(de)); V df = resolve(d, de.a[0]); desc = key(d, df, "FontDescriptor"); V si = key(d, df, "CIDSystemInfo"); CHECK("font-descendant", si.k == K::Dict && si.get("Registry") && si.get("Ordering") && si.get("Supplement"), "CIDSystemInfo is " + ref::show(si));
            if (key(d, df, "DW").isNum()) dw = key(d, df, "DW").num(); V wa = key(d, df, "W"); for (size_t i = 0; i < wa.a.size();) { V a = resolve(d, wa.a[i]), b = resolve(d, wa.a.at(i + 1)); if (b.k == K::Arr) { for (size_t q = 0; q < b.a.size(); q++) w[(uint32_t)(a.i + (int64_t)q)] = resolve(d, b.a[q]).num(); i += 2; } else { double x = resolve(d, wa.a.at(i + 2)).num(); for (int64_t q = a.i; q <= b.i; q++) w[(uint32_t)q] = x; i += 3; } }
            V cg = key(d, df, "CIDToGIDMap"); CHECK("font-descendant", sub != "CIDFontType2" || cg.k == K::Null || (cg.k == K::Name && cg.s == "Identity"), "CIDToGIDMap is " + ref::show(cg));
        } else { first = (int)key(d, font, "FirstChar").i; widths = key(d, font, "Widths").a; V e = key(d, font, "Encoding"); if (e.k == K::Name) base = e.s == "WinAnsiEncoding" ? Enc::WinAnsi : e.s == "MacRomanEncoding" ? Enc::MacRoman : Enc::Standard; desc = key(d, font, "FontDescriptor"); if (!widths.empty()) CHECK("font-widths", (int64_t)widths.size() == key(d, font, "LastChar").i - first + 1, "Widths has " + std::to_string(widths.size()) + " entries for the codes " + std::to_string(first) + " to " + std::to_string(key(d, font, "LastChar").i)); }
        if (desc.k == K::Dict) { for (auto k : { "FontFile", "FontFile2", "FontFile3" }) { std::string s = streamOf(d, desc, k); if (!s.empty()) file = s; } CHECK("font-name", key(d, desc, "FontName").s == key(d, font, "BaseFont").s, "FontName " + key(d, desc, "FontName").s + " and BaseFont " + key(d, font, "BaseFont").s); }
        if (!file.empty()) CHECK("font-file", !FT_New_Memory_Face(lib(), (const FT_Byte*)file.data(), (FT_Long)file.size(), 0, &ft), "the embedded font file of " + key(d, font, "BaseFont").s + " cannot be read");
    }
    ~Reader() { if (ft) FT_Done_Face(ft); }
    static CMap parse(const std::string& s, const char* what) { try { return reftext::parseCMap(s); } catch (SyntaxError& e) { pbt::fail("font-cmap", std::string(what) + " map: " + e.msg + " at " + std::to_string(e.pos) + " of " + pbt::show(s)); } return CMap(); }
    struct G { std::string code; uint32_t cid; std::vector<uint32_t> text; double w; };
    std::vector<G> read(const std::string& s) {
        std::vector<G> r; std::vector<std::string> codes; if (!cid || identity) { size_t n = cid ? 2 : 1; for (size_t i = 0; i < s.size(); i += n) codes.push_back(s.substr(i, n)); } else CHECK("font-codes", enc.split(s, codes), "the codes of " + pbt::show(s) + " are not in the code space of the encoding");
        for (auto& c : codes) { G x; x.code = c; uint32_t v = 0; for (unsigned char b : c) v = v << 8 | b; x.cid = v; if (cid && !identity) { auto it = enc.cid.find(c); CHECK("font-codes", it != enc.cid.end(), "the encoding has no CID for the code " + pbt::show(c) + " that is shown"); x.cid = it->second; }
            if (hasUni) { auto it = uni.uni.find(c); CHECK("font-tounicode", it != uni.uni.end(), "ToUnicode has no text for the code " + pbt::show(c) + " that is shown"); CHECK("font-tounicode", uni.inSpace(c), "the code " + pbt::show(c) + " is not in the code space of ToUnicode"); x.text = it->second; } else if (!cid) x.text = { reftext::decode(base, (uint8_t)v) }; 
            if (cid) { auto it = w.find(x.cid); x.w = it == w.end() ? dw : it->second; } else x.w = (int)v >= first && (size_t)((int)v - first) < widths.size() ? resolve(d, widths[(size_t)((int)v - first)]).num() : -1; r.push_back(x); }
        return r;
    }
};
static void strict(const std::string& file, const std::vector<Line>& lines, std::vector<Fnt>& fonts) {
    auto rr = readStrict(file); const Doc& d = rr.doc; try {
    V pages = key(d, key(d, d.trailer, "Root"), "Pages"); V page = resolve(d, key(d, pages, "Kids").a.at(0)); V fd = key(d, key(d, page, "Resources"), "Font"); std::string content; V c = *page.get("Contents"); if (resolve(d, c).k == K::Arr) { for (auto& x : resolve(d, c).a) content += decodeStream(d.objs.at(x.i).v, d.objs.at(x.i).raw, &d) + "\n"; } else content = streamOf(d, page, "Contents");
    auto shown = scan(content); CHECK("drawn", shown.size() == lines.size(), std::to_string(shown.size()) + " strings are shown instead of " + std::to_string(lines.size())); std::map<std::string, std::unique_ptr<Reader>> rd;
    for (size_t i = 0; i < shown.size(); i++) {
        auto* fo = fd.get(shown[i].font); CHECK("drawn", fo, "font " + shown[i].font + " is not in the resources"); auto& r = rd[shown[i].font]; if (!r) r.reset(new Reader(d, *fo)); const Line& l = lines[i]; const Fnt& f = fonts[(size_t)l.font]; auto gs = r->read(shown[i].str); std::vector<uint32_t> text; for (auto& x : gs) for (auto u : x.text) text.push_back(u);
        CHECK("font-text", text == l.cps, "the string shown with " + f.name + " reads " + pbt::show(utf8(text)) + " instead of " + pbt::show(utf8(l.cps))); CHECK("font-text", gs.size() == l.cps.size(), "number of glyphs");
        bool embed = !(f.flags & 1); CHECK("font-embedded", embed == (r->ft != nullptr) , "font " + f.name + (embed ? " is not embedded" : " is embedded"));
        for (size_t q = 0; q < gs.size(); q++) { double want = advance(f, l.cps[q]); if (embed || gs[q].w >= 0) CHECK("font-width", std::fabs(gs[q].w - want) <= 0.51, "the width of U+" + std::to_string(l.cps[q]) + " in " + f.name + " (code " + pbt::show(gs[q].code) + ", CID " + std::to_string(gs[q].cid) + ") is " + num(gs[q].w) + " instead of " + num(want));
            if (r->ft && f.face && r->cid) { Outline a, b; outline(f.face->f, FT_Get_Char_Index(f.face->f, l.cps[q]), b); CHECK("font-glyph", outline(r->ft, gs[q].cid, a), "glyph " + std::to_string(gs[q].cid) + " of the embedded font cannot be read"); CHECK("font-glyph", a == b, "the glyph of U+" + std::to_string(l.cps[q]) + " in the embedded font (" + f.name + ", CID " + std::to_string(gs[q].cid) + ") is another one: " + std::to_string(a.pts.size()) + " points, advance " + std::to_string(a.adv) + " instead of " + std::to_string(b.pts.size()) + ", " + std::to_string(b.adv)); } }
    }
    } catch (SyntaxError& e) { pbt::fail("drawn", "the saved file: " + e.msg); } catch (std::out_of_range& e) { pbt::fail("drawn", std::string("the saved file: ") + e.what()); }
}
static std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool ascii(const std::string& s) { for (unsigned char c : s) if (c > 126) return false; return true; }
static void queries(pbt::Src& g, const PdfPage& page, const std::vector<Line>& lines) {
    std::vector<PdfTextEntry> e; page.ExtractTextTo(e); compareEntries("extract", e, contents(lines, false), 0.02); e.clear();
    { PdfTextExtractParams p{}; p.Flags = PdfTextExtractFlags::TokenizeWords; page.ExtractTextTo(e, p); compareEntries("extract-words", e, contents(lines, true), 0.02); e.clear(); }
    for (unsigned n = 1 + g.size(2); n--;) {
        auto& l = g.pick(lines); size_t a = g.draw(l.cps.size() - 1), b = g.range((int64_t)a + 1, (int64_t)l.cps.size()); std::vector<uint32_t> sub(l.cps.begin() + (long)a, l.cps.begin() + (long)b); std::string pat = utf8(sub); PdfTextExtractParams p{}; bool nocase = g.chance(1, 3) && ascii(pat), cut = g.coin(), clip = g.chance(1, 4), tok = g.chance(1, 4); if (pat.find(' ') != std::string::npos) tok = false; std::string np = pat; if (nocase) for (auto& c : np) if (g.coin()) c = (char)(c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c);
        p.Flags = PdfTextExtractFlags::None; if (nocase) p.Flags = p.Flags | PdfTextExtractFlags::IgnoreCase; if (cut) p.Flags = p.Flags | PdfTextExtractFlags::ExtractSubstring; if (tok) p.Flags = p.Flags | PdfTextExtractFlags::TokenizeWords; PdfRect box; if (clip) { box = PdfRect(rnd(g, -200, 300), rnd(g, -200, 400), rnd(g, 10, 600), rnd(g, 10, 600)); p.ClipRect = box; }
        g.trace("find ", pbt::show(np), nocase ? " any case" : "", cut ? " substring" : "", tok ? " words" : "", clip ? " clipped" : "");
        std::vector<Want> w; bool edge = false; for (auto& x : contents(lines, tok)) { if (clip) { double dx = std::min(std::fabs(x.x - box.GetLeft()), std::fabs(x.x - box.GetLeft() - box.GetWidth())), dy = std::min(std::fabs(x.y - box.GetBottom()), std::fabs(x.y - box.GetBottom() - box.GetHeight())); if (dx < 0.05 || dy < 0.05) edge = true; if (x.x < box.GetLeft() || x.x > box.GetLeft() + box.GetWidth() || x.y < box.GetBottom() || x.y > box.GetBottom() + box.GetHeight()) continue; }
            std::string t = nocase ? lower(x.text) : x.text; size_t pos = t.find(nocase ? lower(np) : np); if (pos == std::string::npos) continue; if (cut) { for (auto& ln : lines) for (auto& full : tok ? wantWords(ln) : std::vector<Want>{ { utf8(ln.cps), ln.X, ln.Y, ln.len } }) if (full.text == x.text && full.x == x.x && full.y == x.y) { size_t base = tok ? 0 : 0; if (tok) { double off = 0; while (base < ln.cps.size() && std::fabs(ln.X + off - x.x) > 1e-9) off += ln.adv[base++]; } size_t skip = fromUtf8(x.text.substr(0, pos)).size(), cnt = fromUtf8(x.text.substr(pos, np.size())).size(); x.x += lenOf(ln, base, base + skip); x.len = lenOf(ln, base + skip, base + skip + cnt); x.text = x.text.substr(pos, np.size()); goto done; } done:; } w.push_back(x); }
        if (edge) continue; page.ExtractTextTo(e, np, p); compareEntries(cut ? "extract-substring" : "extract-pattern", e, w, 0.02); e.clear();
    }
}
PROP(C21, drawn, 2500, 60000, 5) {
    auto doc = std::make_unique<PdfMemDocument>(); std::set<std::string> used; std::vector<Fnt> fonts; for (unsigned n = (unsigned)g.range(1, 3); n--;) { Fnt f = makeFont(g, *doc, used); bool dup = false; for (auto& x : fonts) if (x.f == f.f) dup = true; if (!dup) fonts.push_back(f); } CHECK("font", fonts[0].f, "no font");
    auto& page = doc->GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)); std::vector<Line> lines; PdfPainter p; p.SetCanvas(page); unsigned n = (unsigned)g.range(1, 6);
    for (unsigned i = 0; i < n; i++) {
        Line l; l.font = (int)g.draw(fonts.size() - 1); Fnt& f = fonts[(size_t)l.font]; if (!(f.flags & 1) || !f.std14) g.nontrivial(); l.size = g.pick({ 12.0, 10.0, 8.5, 24.0, 1.0, 0.75 }); l.tz = g.chance(1, 4) ? g.pick({ 0.5, 2.0, 1.25 }) : 1; l.tc = g.chance(1, 4) ? g.pick({ 1.0, 0.5, 3.0 }) : 0; l.cps = words(g, f); l.x = rnd(g, 0, 300); l.y = rnd(g, 0, 700); Mx m; bool cm = g.chance(1, 3);
        if (cm) { g.nontrivial(); m.a = g.pick({ 1.0, 2.0, 0.5, 1.5 }); m.d = g.pick({ 1.0, 2.0, 0.5, -1.0 }); m.e = rnd(g, -50, 50); m.f = rnd(g, -50, 50); }
        l.k = std::fabs(m.a); for (unsigned t = 0;; t++) { l.X = m.a * l.x + m.e; l.Y = m.d * l.y + m.f; bool clash = false; for (auto& o : lines) if (std::fabs(o.Y - l.Y) < 1) clash = true; if (!clash) break; l.y += 3; }
        for (auto c : l.cps) l.adv.push_back((std::round(advance(f, c)) / 1000 * l.size + l.tc) * l.tz * l.k); l.len = lenOf(l, 0, l.cps.size());
        g.trace("text ", pbt::show(utf8(l.cps)), " font ", f.name, " size ", l.size, " scale ", l.tz, " spacing ", l.tc, " at ", l.x, " ", l.y, " matrix ", m.a, " ", m.d, " ", m.e, " ", m.f);
        if (cm) { p.Save(); p.GetGraphicsState().SetCurrentMatrix(Matrix::FromCoefficients(m.a, m.b, m.c, m.d, m.e, m.f)); } p.GetTextState().SetFont(*f.f, l.size); p.GetTextState().SetFontScale(l.tz); p.GetTextState().SetCharSpacing(l.tc);
        { PdfTextState ts; ts.Font = f.f; ts.FontSize = l.size; ts.FontScale = l.tz; ts.CharSpacing = l.tc; double got = f.f->GetStringLength(utf8(l.cps), ts); CHECK("string-length", std::fabs(got - l.len / l.k) < 0.02 + 0.0006 * l.size * l.tz * (double)l.cps.size(), "the length of " + pbt::show(utf8(l.cps)) + " is " + num(got) + " instead of " + num(l.len / l.k)); }
        p.DrawText(utf8(l.cps), l.x, l.y); if (cm) p.Restore(); lines.push_back(l);
        if (i + 1 < n && g.chance(1, 12)) { g.label("saved while drawing"); g.trace("save and go on"); p.FinishDrawing(); save(*doc); p.SetCanvas(page); }
    }
    p.FinishDrawing(); std::string file = save(*doc, g.coin() ? PdfSaveOptions::None : PdfSaveOptions::NoFlateCompress); strict(file, lines, fonts); auto d2 = refdoc::loadMm(file, (unsigned)g.draw(1)); queries(g, d2->GetPages().GetPageAt(0), lines);
}
// ---- text of other producers -----------------------------------------------------------------
struct FFont { int64_t num = 0; std::string name; bool cid = false; std::vector<std::string> codes; std::map<std::string, std::string> text; std::map<std::string, double> w; std::string space; bool spaceKnown = true; };
static Mx mul(const Mx& a, const Mx& b) { return { a.a * b.a + a.b * b.c, a.a * b.b + a.b * b.d, a.c * b.a + a.d * b.c, a.c * b.b + a.d * b.d, a.e * b.a + a.f * b.c + b.e, a.e * b.b + a.f * b.d + b.f }; }
static V nv(double v) { return v == std::floor(v) && std::fabs(v) < 1e9 ? V::integer((int64_t)v) : V::real(v); }
static V arrOf(std::initializer_list<double> x) { V a = V::arr(); for (double v : x) a.a.push_back(nv(v)); return a; }
static std::string hex4(const std::string& c) { std::string o = "<"; for (unsigned char x : c) { char b[3]; snprintf(b, 3, "%02x", x); o += b; } return o + ">"; }
struct Maker {
    pbt::Src& g; std::map<int64_t, Obj> objs; int64_t next = 5; std::vector<FFont> fonts;
    V indirect(const V& v, int den = 6) { if (!g.chance(1, den)) return v; objs[next].v = v; return V::refTo(next++); }
    V stream(const std::string& data, std::map<std::string, V> d = {}) { Obj o; o.v = V::dict(d); o.hasStream = true; o.raw = data; o.v.m["Length"] = V::integer((int64_t)data.size()); objs[next] = o; return V::refTo(next++); }
    double width() { return g.pick({ 250.0, 500.0, 333.0, 612.5, 750.0, 1000.0, 278.0 }); }
    void font() {
        FFont f; f.name = "F" + std::to_string(fonts.size() + 1); f.num = next++; f.cid = g.coin(); V d = V::dict({ { "Type", V::name("Font") } }); V desc = V::dict({ { "Type", V::name("FontDescriptor") }, { "FontName", V::name("Foo") }, { "Flags", V::integer(32) }, { "FontBBox", arrOf({ 0, -200, 1000, 800 }) }, { "ItalicAngle", V::integer(0) }, { "Ascent", V::integer(800) }, { "Descent", V::integer(-200) }, { "CapHeight", V::integer(700) }, { "StemV", V::integer(80) } });
        if (!f.cid) {
            int first = (int)g.pick({ 32, 32, 0, 65, 97, 200 }), last = (int)std::min<int64_t>(255, first + g.pick({ 0, 10, 95, 222, 255 })); double miss = g.coin() ? 0 : width(); bool mac = g.chance(1, 3); V ws = V::arr(); std::vector<double> w; for (int c = first; c <= last; c++) { w.push_back(width()); ws.a.push_back(indirect(nv(w.back()), 40)); }
            if (first > 32 || last < 32) { g.label("no width of the space"); f.spaceKnown = false; if (miss == 0) miss = 300; }
            d.m["Subtype"] = V::name(g.coin() ? "TrueType" : "Type1"); d.m["BaseFont"] = V::name("Foo"); d.m["FirstChar"] = indirect(V::integer(first)); d.m["LastChar"] = indirect(V::integer(last)); d.m["Widths"] = indirect(ws, 2); d.m["Encoding"] = indirect(V::name(mac ? "MacRomanEncoding" : "WinAnsiEncoding")); if (miss != 0) { desc.m["MissingWidth"] = nv(miss); g.label("missing width"); }
            for (unsigned i = 0; i < 24; i++) { unsigned c = (unsigned)(g.chance(1, 3) ? g.range(first, last) : g.range(33, 255)); uint32_t u = reftext::decode(mac ? Enc::MacRoman : Enc::WinAnsi, (uint8_t)c); if (c == 32 || !u || u == 32 || u == 0xA0 || (!mac && (c == 0xA0 || c == 0xAD)) || (mac && c == 0xCA)) continue; if (c == 13 || c == 10) continue; std::string k(1, (char)c); f.codes.push_back(k); f.text[k] = utf8({ u }); f.w[k] = (int)c >= first && (int)c <= last ? w[c - (unsigned)first] : miss; }
            if (f.codes.empty()) { f.codes.push_back("a"); f.text["a"] = "a"; f.w["a"] = 97 >= first && 97 <= last ? w[97 - (unsigned)first] : miss; } f.space = " "; f.text[" "] = " "; f.w[" "] = 32 >= first && 32 <= last ? w[32 - (unsigned)first] : miss; d.m["FontDescriptor"] = V::refTo(next); objs[next++].v = desc;
        } else {
            g.nontrivial(); double dw = g.coin() ? 1000 : width(); bool custom = g.coin(); unsigned n = (unsigned)g.range(3, 20); std::map<int64_t, double> w; std::string uni, cm; unsigned k = 0, kc = 0; std::set<int64_t> cids; size_t cs = custom && g.coin() ? 1 : 2; if (custom) g.label("character map");
            for (unsigned i = 0; i <= n; i++) { int64_t cid; do cid = g.chance(1, 4) ? g.range(1, 60000) : g.range(1, 60); while (!cids.insert(cid).second); std::string c; if (!custom) c = std::string{ (char)(cid >> 8), (char)cid }; else c = cs == 1 ? std::string(1, (char)(i + 40)) : std::string{ (char)(i % 3 + 0x81), (char)(i + 0x40) };
                uint32_t u = i ? (uint32_t)g.pick<int64_t>({ (int64_t)'A' + i, 0x410 + i, 0x4E00 + i, 0x1F600 + i }) : 32; std::vector<uint32_t> t{ u }; if (i && g.chance(1, 6)) { t.push_back('x'); g.label("ligature"); } if (g.chance(3, 4)) w[cid] = width(); f.text[c] = utf8(t); f.w[c] = w.count(cid) ? w[cid] : dw; uni += hex4(c) + " " + hex4(utf16be(t)) + "\n"; k++; cm += hex4(c) + " " + std::to_string(cid) + "\n"; kc++; if (i) f.codes.push_back(c); else { f.space = c; f.spaceKnown = w.count(cid) != 0; } }
                        V wa = V::arr(); for (auto it = w.begin(); it != w.end();) { auto j = it; std::vector<double> run; while (j != w.end() && j->first == it->first + (int64_t)run.size() && run.size() < 5) { run.push_back(j->second); ++j; } bool same = true; for (double x : run) if (x != run[0]) same = false; wa.a.push_back(indirect(V::integer(it->first), 20)); if (same && g.coin()) { wa.a.push_back(V::integer(it->first + (int64_t)run.size() - 1)); wa.a.push_back(indirect(nv(run[0]), 10)); g.label("range of widths"); } else { V a = V::arr(); for (double x : run) a.a.push_back(indirect(nv(x), 20)); wa.a.push_back(indirect(a, 5)); } it = j; }
            V df = V::dict({ { "Type", V::name("Font") }, { "Subtype", V::name(g.coin() ? "CIDFontType2" : "CIDFontType0") }, { "BaseFont", V::name("Foo") }, { "CIDSystemInfo", V::dict({ { "Registry", V::str("Adobe") }, { "Ordering", V::str("Identity") }, { "Supplement", V::integer(0) } }) }, { "FontDescriptor", V::refTo(next) } }); objs[next++].v = desc; if (dw != 1000 || g.coin()) df.m["DW"] = nv(dw); if (!wa.a.empty()) df.m["W"] = indirect(wa, 3); int64_t dn = next++; objs[dn].v = df;
            std::string sp = cs == 1 ? "<00> <ff>" : "<0000> <ffff>"; std::string head = "/CIDInit /ProcSet findresource begin 12 dict begin begincmap\n1 begincodespacerange " + sp + " endcodespacerange\n"; d.m["Subtype"] = V::name("Type0"); d.m["BaseFont"] = V::name("Foo"); d.m["DescendantFonts"] = indirect(V::arr({ V::refTo(dn) })); d.m["ToUnicode"] = stream(head + std::to_string(k) + " beginbfchar\n" + uni + "endbfchar\nendcmap\nend end"); d.m["Encoding"] = custom ? stream(head + std::to_string(kc) + " begincidchar\n" + cm + "endcidchar\nendcmap\nend end", { { "Type", V::name("CMap") }, { "CMapName", V::name("Foo") } }) : V::name("Identity-H");
        }
        objs[f.num].v = d; g.trace("font ", f.name, ": ", ref::show(d)); fonts.push_back(f);
    }
};
struct St { Mx ctm, tm, tlm; double tl = 0, tc = 0, tw = 0, tz = 1, size = 0; const FFont* f = nullptr; };
struct Builder {
    pbt::Src& g; Maker& mk; std::vector<Want> want; std::set<int> ys; double lastY = 1e9;
    static std::string n(double v) { return ref::spell(nv(v)); }
    static double width(const St& s, const std::string& c) { double w = s.f->w.at(c) / 1000 * s.size + s.tc; if (c == " ") w += s.tw; return w * s.tz; }
    // advances the text matrix; gives the text
    void show(St& s, const std::vector<std::string>& codes, std::string& text) { double tx = 0; for (auto& c : codes) { text += s.f->text.at(c); tx += width(s, c); } s.tm = mul({ 1, 0, 0, 1, tx, 0 }, s.tm); }
    std::vector<std::string> word(const St& s) { std::vector<std::string> r; unsigned len = (unsigned)g.range(1, 5); for (unsigned i = 0; i < len; i++) r.push_back(g.pick(s.f->codes)); if (len > 2 && g.chance(1, 4)) r[len / 2] = s.f->space; return r; }
    std::string lit(const std::vector<std::string>& codes) { std::string raw; for (auto& c : codes) raw += c; return raw.find('\r') != std::string::npos || g.coin() ? hex4(raw) : ref::spell(V::str(raw), g.coin() ? &g : nullptr); }
    Want begin(const St& s) { Mx m = mul(s.tm, s.ctm); return { "", m.e, m.f, 0 }; }
    void end(const St& s, Want& w) { Mx m = mul(s.tm, s.ctm); w.len = std::hypot(m.e - w.x, m.f - w.y); want.push_back(w); lastY = w.y; }
    std::string setFont(St& s, bool plain) { std::string o; if (plain) { if (s.tc != 0 || g.coin()) o += "0 Tc\n"; if (s.tw != 0) o += "0 Tw\n"; if (s.tz != 1) o += "100 Tz\n"; s.tc = s.tw = 0; s.tz = 1; } s.f = &g.pick(mk.fonts); s.size = g.pick({ 12.0, 10.0, 1.0, 24.0, 7.5 }); if (s.tc < 0) { s.tc = 0; o += "0 Tc\n"; } return o + "/" + s.f->name + " " + n(s.size) + " Tf\n"; }
    // the next string must be on a line of its own
    bool apart(const St& s) { Mx m = mul(s.tm, s.ctm); return std::fabs(m.f - lastY) > 0.5; }
    std::string move(St& s) {
        std::string o; for (unsigned t = 0; t < 50; t++) { o.clear(); St k = s; switch (g.weighted({ 4, 2, 3, 2 })) {
            case 0: { double x = rnd(g, -100, 100), y = rnd(g, -60, 60); o = n(x) + " " + n(y) + " Td\n"; k.tlm = mul({ 1, 0, 0, 1, x, y }, k.tlm); k.tm = k.tlm; break; }
            case 1: { double x = rnd(g, -100, 100), y = rnd(g, -60, 60); o = n(x) + " " + n(y) + " TD\n"; k.tl = -y; k.tlm = mul({ 1, 0, 0, 1, x, y }, k.tlm); k.tm = k.tlm; break; }
            case 2: { Mx m{ g.pick({ 1.0, 2.0, 0.5 }), 0, 0, g.pick({ 1.0, 2.0, 0.5 }), rnd(g, 0, 500), rnd(g, 0, 700) }; if (g.chance(1, 5)) { m.b = 0.25; m.c = -0.25; g.label("slanted"); } o = n(m.a) + " " + n(m.b) + " " + n(m.c) + " " + n(m.d) + " " + n(m.e) + " " + n(m.f) + " Tm\n"; k.tm = k.tlm = m; break; }
            default: o = ""; if (k.tl == 0 || g.chance(1, 3)) { k.tl = g.pick({ 14.0, 20.5, -9.0 }); o = n(k.tl) + " TL\n"; } o += "T*\n"; k.tlm = mul({ 1, 0, 0, 1, 0, -k.tl }, k.tlm); k.tm = k.tlm; } if (apart(k)) { s = k; return o; } }
        throw std::runtime_error("no place for a line");
    }
    std::string block(St& s) {
        std::string o = "BT\n"; s.tm = s.tlm = Mx(); bool plain = g.coin(); o += setFont(s, plain); unsigned n2 = (unsigned)g.range(1, 4);
        for (unsigned i = 0; i < n2; i++) {
            if (i && g.chance(1, 4)) o += setFont(s, plain); if (!plain) { if (g.chance(1, 4)) { s.tc = g.pick({ 0.0, 1.0, 0.5, -0.25 }); if (s.tc < 0) for (auto& y : s.f->w) if (y.second / 1000 * s.size < 0.5) s.tc = 0.25; o += n(s.tc) + " Tc\n"; g.nontrivial(); } if (g.chance(1, 4)) { s.tz = g.pick({ 1.0, 0.5, 2.0 }); o += n(s.tz * 100) + " Tz\n"; g.nontrivial(); } if (g.chance(1, 5)) { s.tw = g.pick({ 0.0, 2.0, 1.5 }); o += n(s.tw) + " Tw\n"; g.nontrivial(); } }
            switch (g.weighted({ 4, 2, 1, plain ? 6u : 2u })) {
            case 0: { o += move(s); Want w = begin(s); auto c = word(s); o += lit(c) + " Tj\n"; show(s, c, w.text); end(s, w); break; }
            case 1: case 2: { bool dbl = !plain && g.coin(); St k = s; std::string pre; if (k.tl == 0) { k.tl = 15; pre = "15 TL\n"; } k.tlm = mul({ 1, 0, 0, 1, 0, -k.tl }, k.tlm); k.tm = k.tlm; if (!apart(k)) { i--; o += move(s); { Want w = begin(s); auto c = word(s); o += lit(c) + " Tj\n"; show(s, c, w.text); end(s, w); } i++; break; }
                s = k; o += pre; if (dbl) { s.tw = g.pick({ 0.0, 2.0 }); s.tc = g.pick({ 0.0, 1.0 }); o += n(s.tw) + " " + n(s.tc) + " "; } g.label("shown on the next line"); g.nontrivial(); Want w = begin(s); auto c = word(s); o += lit(c) + (dbl ? " \"\n" : " '\n"); show(s, c, w.text); end(s, w); break; }
            default: { o += move(s); std::string a = "["; Want w = begin(s); unsigned parts = plain && s.f->spaceKnown && mul(s.tm, s.ctm).b == 0 ? (unsigned)g.range(1, 4) : 1; if (g.chance(1, 4)) { a += "0 "; } bool scaled = false; (void)scaled;
                for (unsigned p = 0; p < parts; p++) { if (p) { double sp = s.f->w.at(s.f->space); double gap; int kind = (int)g.draw(2); if (kind == 0) gap = std::floor(sp * 0.4); else if (kind == 1) gap = std::floor(sp * 2); else gap = std::floor(sp * 9); if (sp < 1) gap = 0, kind = 0; a += " " + n(-gap) + " "; double tx = gap / 1000 * s.size * s.tz; g.nontrivial();
                        if (kind == 2) { end(s, w); } s.tm = mul({ 1, 0, 0, 1, tx, 0 }, s.tm); if (kind == 2) { w = begin(s); } else if (kind == 1) w.text += " "; g.label(kind == 0 ? "small gap" : kind == 1 ? "gap of a space" : "wide gap"); }
                    auto c = word(s); a += lit(c); show(s, c, w.text); }
                end(s, w); o += a + "] TJ\n"; break; }
            }
        }
        return o + "ET\n";
    }
    std::string cm(St& s) { Mx m{ g.pick({ 1.0, 2.0, 0.5, 1.5 }), 0, 0, g.pick({ 1.0, 2.0, 0.5, -1.0 }), rnd(g, -50, 50), rnd(g, -50, 50) }; if (g.chance(1, 5)) { m.b = 0.5; m.c = -0.5; g.label("turned"); } s.ctm = mul(m, s.ctm); return n(m.a) + " " + n(m.b) + " " + n(m.c) + " " + n(m.d) + " " + n(m.e) + " " + n(m.f) + " cm\n"; }
    std::string content(St& s, unsigned depth, V& xobj) {
        std::string o; std::vector<St> saved; unsigned n2 = (unsigned)g.range(1, 4);
        for (unsigned i = 0; i < n2; i++) switch (g.weighted({ 6, 2, 2, 2, depth ? 2u : 0u, 1 })) {
        case 0: case 5: o += block(s); break;
        case 1: o += "q\n"; saved.push_back(s); o += cm(s); break;
        case 2: if (!saved.empty()) { o += "Q\n"; s = saved.back(); saved.pop_back(); } break;
        case 3: o += cm(s); break;
        default: { g.label("form"); g.nontrivial(); V inner = V::dict(); Mx m; bool has = g.coin(); if (has) m = { g.pick({ 1.0, 2.0, 0.5 }), 0, 0, g.pick({ 1.0, 0.5 }), rnd(g, -40, 40), rnd(g, -40, 40) }; St k = s; k.ctm = mul(m, k.ctm); k.f = nullptr; std::string body = content(k, depth - 1, inner); V res = V::dict({ { "Font", fontDict() } }); if (!inner.m.empty()) res.m["XObject"] = inner; std::map<std::string, V> d{ { "Type", V::name("XObject") }, { "Subtype", V::name("Form") }, { "BBox", arrOf({ -1000, -1000, 2000, 2000 }) }, { "Resources", res } }; if (has) d["Matrix"] = arrOf({ m.a, m.b, m.c, m.d, m.e, m.f }); std::string nm = "X" + std::to_string(xobj.m.size()) + "d" + std::to_string(depth); xobj.m[nm] = mk.stream(body, d); o += "/" + nm + " Do\n"; } }
        while (!saved.empty()) { o += "Q\n"; s = saved.back(); saved.pop_back(); }
        return o;
    }
    V fontDict() { V f = V::dict(); for (auto& x : mk.fonts) f.m[x.name] = V::refTo(x.num); return f; }
};
PROP(C21, foreign, 12000, 300000, 5) {
    Maker mk{ g }; for (unsigned n = (unsigned)g.range(1, 3); n--;) mk.font(); Builder b{ g, mk }; St s; V xobj = V::dict(); std::string content = b.content(s, 2, xobj); if (g.chance(1, 8)) { content = "foo\n" + content; g.label("unknown keyword"); } g.trace("content: ", content); V res = V::dict({ { "Font", b.fontDict() } }); if (!xobj.m.empty()) res.m["XObject"] = xobj;
    mk.objs[1].v = V::dict({ { "Type", V::name("Catalog") }, { "Pages", V::refTo(2) } }); mk.objs[2].v = V::dict({ { "Type", V::name("Pages") }, { "Kids", V::arr({ V::refTo(3) }) }, { "Count", V::integer(1) } }); V c; { size_t cut = g.chance(1, 4) ? content.find("BT\n") : std::string::npos; if (cut != std::string::npos && cut) { V a = mk.stream(content.substr(0, cut)), z = mk.stream(content.substr(cut)); c = V::arr({ a, z }); } else c = mk.stream(content); } mk.objs[3].v = V::dict({ { "Type", V::name("Page") }, { "Parent", V::refTo(2) }, { "MediaBox", arrOf({ 0, 0, 612, 792 }) }, { "Resources", res }, { "Contents", c } });
    FileWriter w(g); w.noise = false; w.header("1.7"); w.revision(mk.objs, {}, V::dict({ { "Root", V::refTo(1) } }), Layout{}, true); auto doc = refdoc::loadMm(w.out); std::vector<PdfTextEntry> e; doc->GetPages().GetPageAt(0).ExtractTextTo(e); compareEntries("foreign", e, b.want, 0.01);
    { auto& page = doc->GetPages().GetPageAt(0); auto* fd = page.GetResources()->GetDictionary().FindKey("Font"); for (auto& f : mk.fonts) { auto* font = doc->GetFonts().GetLoadedFont(*fd->GetDictionary().FindKey(f.name)); CHECK("font", font, "font " + f.name + " cannot be loaded"); std::string raw, text; double want = 0; for (unsigned i = 0; i < 6; i++) { auto& k = g.pick(f.codes); raw += k; text += f.text[k]; want += f.w[k] / 1000 * 10; } PdfTextState ts; ts.Font = font; ts.FontSize = 10; auto str = PdfString::FromRaw(bufferview(raw.data(), raw.size())); std::string got = font->GetEncoding().ConvertToUtf8(str); CHECK("font-text", got == text, "string " + hex4(raw) + " is " + pbt::show(got) + " instead of " + pbt::show(text)); double len = font->GetStringLength(str, ts); CHECK("font-width", std::fabs(len - want) < 1e-6, "string " + hex4(raw) + " has length " + num(len) + " instead of " + num(want)); } }
}
