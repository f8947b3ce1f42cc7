// C20: encodings and character maps.
#include "refdoc.h"
#include "reftext.h"
#include <pdfmm/base/PdfCMapEncoding.h>
#include <pdfmm/base/PdfDifferenceEncoding.h>
#include <pdfmm/base/PdfPredefinedEncoding.h>
#include <pdfmm/base/PdfCIDToGIDMap.h>
using namespace mm; using namespace ref; using namespace refmm; using reftext::Enc; using reftext::CMap;
static struct Init { Init() {
    pbt::g_rule = "the character map has ranges, ligatures, surrogates or codes of several lengths, or the encoding has differences";
    pbt::g_assumptions = "characters of the private use area are not given names\ncode space ranges of a map do not overlap and no code is mapped twice\nwhat is returned for codes that are not mapped is not checked, only that they are reported\nno predefined CJK maps, usecmap or notdef ranges\ncode 96 of the standard encoding (kept as the ASCII grave accent on purpose) is not compared\ncharacters that are the same glyph in the Latin character set (space and no-break space) are not distinguished";
} } init;
static std::string hexs(pbt::Src& g, const std::string& s) { std::string o = "<"; bool up = g.coin(); for (unsigned char c : s) { char b[3]; snprintf(b, 3, up ? "%02X" : "%02x", c); o += b; if (g.chance(1, 30)) o += g.pick<char>({ ' ', '\n' }); } return o + ">"; }
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s) { char b[3]; snprintf(b, 3, "%02X", c); o += b; } return "<" + o + ">"; }
static uint64_t num(const std::string& c) { uint64_t v = 0; for (char x : c) v = v << 8 | (unsigned char)x; return v; }
static std::string codeOf(uint64_t v, size_t n) { std::string s(n, 0); for (size_t i = n; i-- > 0; v >>= 8) s[i] = (char)(v & 255); return s; }
static std::string ws(pbt::Src& g) { switch (g.draw(9)) { case 0: return "\n"; case 1: return "  "; case 2: return "\r\n"; case 3: return " % comment > )\n"; case 4: return "\t"; default: return " "; } }
static uint32_t cp(pbt::Src& g) { switch (g.draw(7)) { case 0: return 0x1F600 + (uint32_t)g.draw(60); case 1: return 0x10000 + (uint32_t)g.draw(0xFFFFF); case 2: { uint32_t v = (uint32_t)g.range(0x80, 0xFFFD); return v >= 0xD800 && v < 0xF900 ? 0x20AC : v; } case 3: return (uint32_t)g.range(0x3B1, 0x3C9); default: return (uint32_t)g.range('a', 'z'); } }
struct Gen { CMap m; std::string text; };
static Gen genCMap(pbt::Src& g, bool unicode, int force = 0) {
    Gen r; CMap& m = r.m; int plan = force ? force : (int)g.weighted({ 3, 5, 3, 1, 1, 2 }) + 1;
    switch (plan) { case 1: m.space = { { std::string(1, 0), "\xff" } }; if (g.coin()) m.space = { { "\x20", "\x7e" } }; break; case 2: m.space = { { std::string(2, 0), "\xff\xff" } }; if (g.chance(1, 3)) m.space = { { std::string("\0\x20", 2), std::string("\x7f\x9f", 2) } }; break;
    case 3: m.space = { { std::string(1, 0), "\x7f" }, { std::string("\x80\0", 2), "\xff\xff" } }; if (g.coin()) m.space = { { "\x20", "\x80" }, { "\x81\x40", "\x9f\xfc" }, { "\xa0", "\xdf" }, { "\xe0\x40", "\xfc\xfc" } }; g.label("codes of several lengths"); g.nontrivial(); break;
    case 4: m.space = { { std::string(3, 0), "\xff\xff\xff" } }; break; case 5: m.space = { { std::string(4, 0), "\xff\xff\xff\xff" } }; break;
    default: m.space = { { std::string(1, 0), "\x3f" }, { std::string("\x40\0", 2), "\x7f\xff" }, { std::string("\x80\0\0", 3), "\xbf\xff\xff" }, { std::string("\xc0\0\0\0", 4), "\xff\xff\xff\xff" } }; g.label("codes of several lengths"); g.nontrivial(); }
    std::string& t = r.text; t = "/CIDInit /ProcSet findresource begin" + ws(g) + "12 dict begin\nbegincmap" + ws(g); if (g.coin()) t += "/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n"; else t += "/CIDSystemInfo 3 dict dup begin /Registry (Adobe) def /Ordering (UCS) def /Supplement 0 def end def\n"; t += "/CMapName /Test" + std::string(unicode ? "-UCS" : "") + " def\n/CMapType 2 def\n";
    size_t done = 0; while (done < m.space.size()) { size_t n = g.coin() ? m.space.size() - done : 1; t += std::to_string(n) + ws(g) + "begincodespacerange" + ws(g); for (size_t i = 0; i < n; i++, done++) t += hexs(g, m.space[done].first) + (g.coin() ? ws(g) : "") + hexs(g, m.space[done].second) + ws(g); t += "endcodespacerange\n"; }
    auto anyCode = [&]() { auto& s = m.space[g.draw(m.space.size() - 1)]; std::string c; for (size_t i = 0; i < s.first.size(); i++) { unsigned lo = (unsigned char)s.first[i], hi = (unsigned char)s.second[i]; c += (char)(g.chance(1, 4) ? (g.coin() ? lo : hi) : g.chance(1, 2) ? g.range(lo, std::min(hi, lo + 3)) : g.range(lo, hi)); } return c; };
    auto taken = [&](const std::string& c) { return unicode ? m.uni.count(c) : m.cid.count(c); };
    unsigned blocks = (unsigned)g.range(1, 5); for (unsigned b = 0; b < blocks; b++) {
        bool range = g.coin(); unsigned n = (unsigned)g.range(1, 6); std::string body; unsigned k = 0; for (unsigned i = 0; i < n; i++) {
            std::string lo = anyCode(); if (!range) { if (taken(lo)) continue; body += hexs(g, lo) + (g.coin() ? ws(g) : ""); if (unicode) { std::vector<uint32_t> d{ cp(g) }; if (g.chance(1, 5)) { g.label("ligature"); g.nontrivial(); unsigned l = (unsigned)g.range(1, 3); for (unsigned q = 0; q < l; q++) d.push_back(cp(g)); } for (uint32_t c : d) if (c > 0xFFFF) g.label("surrogates"); m.uni[lo] = d; body += hexs(g, utf16be(d)); } else { uint32_t c = (uint32_t)(g.coin() ? g.draw(300) : g.draw(65535)); m.cid[lo] = c; body += " " + std::to_string(c); } body += ws(g); k++; continue; }
            unsigned room = 255 - (unsigned char)lo.back(); unsigned hiB = 255; for (auto& s : m.space) if (s.first.size() == lo.size()) { bool in = true; for (size_t q = 0; q < lo.size(); q++) if ((unsigned char)lo[q] < (unsigned char)s.first[q] || (unsigned char)lo[q] > (unsigned char)s.second[q]) in = false; if (in) hiB = (unsigned char)s.second.back(); } room = hiB - (unsigned char)lo.back();
            unsigned len = (unsigned)(g.chance(1, 6) ? room + 1 : g.range(1, std::min<unsigned>(room + 1, 8))); bool clash = false; for (unsigned q = 0; q < len; q++) if (taken(codeOf(num(lo) + q, lo.size()))) clash = true; if (clash) continue; k++; g.nontrivial(); g.label("range"); std::string hi = codeOf(num(lo) + len - 1, lo.size()); body += hexs(g, lo) + (g.coin() ? ws(g) : "") + hexs(g, hi) + (g.coin() ? ws(g) : "");
            if (!unicode) { uint32_t c = (uint32_t)(g.chance(1, 4) ? num(lo) & 0xFFFF : g.draw(60000)); for (unsigned q = 0; q < len; q++) m.cid[codeOf(num(lo) + q, lo.size())] = c + q; body += " " + std::to_string(c) + ws(g); continue; }
            if (len <= 8 && g.coin()) { g.label("range with an array"); body += "["; for (unsigned q = 0; q < len; q++) { std::vector<uint32_t> d{ cp(g) }; if (g.chance(1, 4)) { d.push_back(cp(g)); g.label("ligature"); } m.uni[codeOf(num(lo) + q, lo.size())] = d; body += (g.coin() ? ws(g) : "") + hexs(g, utf16be(d)); } body += "]" + ws(g); continue; }
            std::vector<uint32_t> d; if (g.chance(1, 5)) { d.push_back(cp(g)); g.label("ligature"); } uint32_t last = g.chance(1, 4) && lo.size() <= 2 && num(lo) > 0 && !(num(lo) >= 0xD800 && num(hi) < 0xE000) ? (uint32_t)num(lo) : cp(g); { std::string u = utf16be({ last }); if ((unsigned char)u.back() + len - 1 > 255) last -= (uint32_t)((unsigned char)u.back() + len - 1 - 255); } if (last >= 0xD800 - 300 && last < 0xE000) last = 0x4E00; if (last == 0) last = 0x4E00; d.push_back(last); for (unsigned q = 0; q < len; q++) { d.back() = last + q; m.uni[codeOf(num(lo) + q, lo.size())] = d; } d.back() = last; body += hexs(g, utf16be(d)) + ws(g);
        }
        if (!k) continue; t += std::to_string(k) + ws(g) + "begin" + (unicode ? "bf" : "cid") + (range ? "range" : "char") + ws(g) + body + "end" + (unicode ? "bf" : "cid") + (range ? "range" : "char") + "\n";
    }
    t += "endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n"; CMap back = reftext::parseCMap(t); if (back.uni != m.uni || back.cid != m.cid) pbt::fail("generator", "the reference reader of character maps and its generator disagree about\n" + t); return r;
}
static PdfObject& dictObj(PdfMemDocument& doc, const std::string& text) { auto& o = doc.GetObjects().CreateDictionaryObject(); o = toObj(Lexer(text).value()); return o; }
static std::string ref_(const PdfObject& o) { return std::to_string(o.GetIndirectReference().ObjectNumber()) + " 0 R"; }
static PdfObject& streamObj(PdfMemDocument& doc, const std::string& dict, const std::string& data) { auto& o = doc.GetObjects().CreateDictionaryObject(); for (auto& p : Lexer(dict).value().m) o.GetDictionary().AddKey(nameOf(p.first), toObj(p.second)); o.GetOrCreateStream().SetData(bufferview(data.data(), data.size())); return o; }
static PdfString ps(const std::string& s) { return strOf(s, true); }
static const char* DESC = "<< /Type /FontDescriptor /FontName /Test /Flags 32 /FontBBox [0 0 1000 1000] /ItalicAngle 0 /Ascent 800 /Descent -200 /CapHeight 700 /StemV 80 >>";
static std::string txt(const std::vector<uint32_t>& v) { return utf8(v); }
static void checkMap(pbt::Src& g, const PdfEncoding& e, const CMap& m, bool encodable) {
    auto& map = e.GetToUnicodeMap(); std::vector<std::string> keys; for (auto& p : m.uni) keys.push_back(p.first); if (keys.empty()) return;
    for (unsigned k = 0; k < 6; k++) { auto& c = keys[g.draw(keys.size() - 1)]; std::vector<char32_t> u; auto& want = m.uni.at(c); bool ok = map.TryGetCodePoints(PdfCharCode((unsigned)num(c), (unsigned char)c.size()), u); CHECK("code", ok && std::equal(u.begin(), u.end(), want.begin(), want.end()), "code " << show(c) << " is mapped to " << (ok ? txt(std::vector<uint32_t>(u.begin(), u.end())) : "nothing") << " instead of " << txt(want));
        if (want.size() == 1) CHECK("code-point", e.GetCodePoint(PdfCharCode((unsigned)num(c), (unsigned char)c.size())) == want[0], "code point of " << show(c));
        std::string other = c; if (g.coin() && c.size() < 4) other = std::string(1, 0) + c; else other.back() = (char)(other.back() + 1); if (!m.uni.count(other)) { g.label("code that is not mapped"); ok = map.TryGetCodePoints(PdfCharCode((unsigned)num(other), (unsigned char)other.size()), u); CHECK("unmapped", !ok, "code " << show(other) << " is not in the map but is mapped to " << txt(std::vector<uint32_t>(u.begin(), u.end()))); } }
    std::string s, want; std::vector<std::string> codes; unsigned n = (unsigned)g.range(1, 12); for (unsigned i = 0; i < n; i++) { auto& c = keys[g.draw(keys.size() - 1)]; codes.push_back(c); s += c; want += txt(m.uni.at(c)); }
    std::string out; bool ok = e.TryConvertToUtf8(ps(s), out); CHECK("to-text", ok && out == want, show(s) << " is read as " << (ok ? out : "failure") << " instead of " << want); CHECK_EQ("to-text", e.ConvertToUtf8(ps(s)), want, "text of " << show(s));
    // a string with a code that is not mapped
    { std::string pre, post, wp, bad; for (int tries = 0; tries < 20 && bad.empty(); tries++) { auto& sp = m.space[g.draw(m.space.size() - 1)]; std::string c; for (size_t i = 0; i < sp.first.size(); i++) c += (char)g.range((unsigned char)sp.first[i], (unsigned char)sp.second[i]); if (!m.uni.count(c)) bad = c; } if (!bad.empty()) { size_t cut = g.draw(n); std::string post2; for (size_t i = 0; i < n; i++) if (i < cut) { pre += codes[i]; wp += txt(m.uni.at(codes[i])); } else { post += codes[i]; post2 += txt(m.uni.at(codes[i])); } g.label("string with an unmapped code"); ok = e.TryConvertToUtf8(ps(pre + bad + post), out); CHECK("reports-unmapped", !ok, "a string with the code " << show(bad) << ", which is not mapped, is converted to " << out); CHECK("text-before", out.compare(0, wp.size(), wp) == 0, "text before an unmapped code: " << out << " instead of " << wp); if (m.space.size() == 1) CHECK("text-after", out.size() >= post2.size() && out.compare(out.size() - post2.size(), post2.size(), post2) == 0, "text after an unmapped code: " << out << " does not end with " << post2); } }
    if (!encodable) return;
    // text to codes: the longest sequences first
    std::map<std::vector<uint32_t>, bool> rev; for (auto& p : m.uni) rev[p.second] = true; std::vector<uint32_t> text; for (unsigned i = 0; i < n; i++) { if (g.chance(1, 12)) text.push_back(cp(g)); else { auto& d = m.uni.at(keys[g.draw(keys.size() - 1)]); text.insert(text.end(), d.begin(), d.end()); if (d.size() > 1 && g.chance(1, 3)) text.pop_back(); } }
    bool can = true; for (size_t i = 0; i < text.size();) { size_t best = 0; for (size_t l = 1; l <= 5 && i + l <= text.size(); l++) if (rev.count(std::vector<uint32_t>(text.begin() + (long)i, text.begin() + (long)(i + l)))) best = l; if (!best) { can = false; break; } i += best; }
    charbuff enc; bool did = e.TryConvertToEncoded(txt(text), enc); g.label(did ? "text encoded" : "text not encoded"); CHECK("can-encode", did || !can, "the text " << txt(text) << " is not encoded"); bool thrown = false; try { (void)e.ConvertToEncoded(txt(text)); } catch (PdfError&) { thrown = true; } CHECK("encode-agree", thrown == !did, "the two ways of encoding disagree");
    if (did) { std::string es(enc.data(), enc.size()), back; std::vector<std::string> cs; CHECK("encoded-codes", m.split(es, cs), "encoded text " << show(es) << " is not made of codes"); for (auto& c : cs) { auto f = m.uni.find(c); CHECK("encoded-codes", f != m.uni.end(), "encoded text has the code " << show(c) << " that is not mapped"); back += txt(f->second); } CHECK_EQ("encoded-text", back, txt(text), "text of the encoded string " << show(es)); }
    { uint32_t c = g.coin() ? cp(g) : m.uni.at(keys[0])[0]; PdfCharCode code; bool single = rev.count({ c }); bool found = map.TryGetCharCode((char32_t)c, code); CHECK_EQ("char-code", found, single, "whether there is a code for " << utf8({ c })); if (found) { auto f = m.uni.find(codeOf(code.Code, code.CodeSpaceSize)); CHECK("char-code", f != m.uni.end() && f->second == std::vector<uint32_t>{ c }, "code of " << utf8({ c }) << " is " << show(codeOf(code.Code, code.CodeSpaceSize))); } }
}
PROP(C20, maps, 16000, 1000000, 5) {
    PdfMemDocument doc; Gen u = genCMap(g, true, g.chance(1, 5) ? 1 : 0); g.trace(u.text); auto& tu = streamObj(doc, "<< >>", u.text); std::string font; bool simple = u.m.space.size() == 1 && u.m.space[0].first.size() == 1 && g.coin(); auto& desc = dictObj(doc, DESC); Gen c; bool cidMap = false;
    if (simple) { g.label("simple font"); font = "<< /Type /Font /Subtype /TrueType /BaseFont /Test /FirstChar 0 /LastChar 255 /Widths [ " + [] { std::string s; for (int i = 0; i < 256; i++) s += "500 "; return s; }() + "] /FontDescriptor " + ref_(desc) + (g.coin() ? " /Encoding /WinAnsiEncoding" : "") + " /ToUnicode " + ref_(tu) + " >>"; }
    else { auto& df = dictObj(doc, "<< /Type /Font /Subtype /CIDFontType2 /BaseFont /Test /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> /DW 500 /FontDescriptor " + ref_(desc) + " >>"); std::string enc = "/Identity-H"; if (g.coin()) { c = genCMap(g, false); g.trace(c.text); enc = ref_(streamObj(doc, "<< /Type /CMap /CMapName /Test >>", c.text)); cidMap = true; g.label("CID map"); } font = "<< /Type /Font /Subtype /Type0 /BaseFont /Test /Encoding " + enc + " /DescendantFonts [ " + ref_(df) + " ] /ToUnicode " + ref_(tu) + " >>"; }
    auto& fo = dictObj(doc, font); PdfFont* f = doc.GetFonts().GetLoadedFont(fo); CHECK("font", f != nullptr, "font is not loaded"); auto& e = f->GetEncoding(); checkMap(g, e, u.m, true);
    if (cidMap && !c.m.cid.empty()) { std::string s; std::vector<std::string> codes; std::vector<std::string> keys; for (auto& p : c.m.cid) keys.push_back(p.first); unsigned n = (unsigned)g.range(1, 12); for (unsigned i = 0; i < n; i++) { codes.push_back(keys[g.draw(keys.size() - 1)]); s += codes.back(); } std::vector<PdfCID> cids; CHECK("cids", e.TryConvertToCIDs(ps(s), cids) && cids.size() == codes.size(), "CIDs of " << show(s)); for (size_t i = 0; i < codes.size(); i++) CHECK("cid", cids[i].Id == c.m.cid.at(codes[i]) && cids[i].Unit == PdfCharCode((unsigned)num(codes[i]), (unsigned char)codes[i].size()), "code " << show(codes[i]) << " has CID " << cids[i].Id << " instead of " << c.m.cid.at(codes[i]));
        std::string bad; for (int t = 0; t < 20 && bad.empty(); t++) { auto& sp = c.m.space[g.draw(c.m.space.size() - 1)]; std::string x; for (size_t i = 0; i < sp.first.size(); i++) x += (char)g.range((unsigned char)sp.first[i], (unsigned char)sp.second[i]); if (!c.m.cid.count(x)) bad = x; } if (!bad.empty()) CHECK("reports-unmapped-cid", !e.TryConvertToCIDs(ps(s + bad), cids) && cids.size() > codes.size() && cids[0].Id == c.m.cid.at(codes[0]), "a string with the code " << show(bad) << ", which has no CID, is converted"); }
    else if (!cidMap && !simple) { std::string s; unsigned n = (unsigned)g.range(1, 8); for (unsigned i = 0; i < 2 * n; i++) s += (char)g.draw(255); std::vector<PdfCID> cids; CHECK("cids", e.TryConvertToCIDs(ps(s), cids) && cids.size() == n, "CIDs of " << show(s)); for (unsigned i = 0; i < n; i++) CHECK("cid", cids[i].Id == num(s.substr(2 * i, 2)), "CID of an identity"); }
}
PROP(C20, simple, 16000, 1000000, 5) {
    PdfMemDocument doc; auto& desc = dictObj(doc, DESC); int base = (int)g.draw(3); std::map<int, std::string> diff; bool dict = base == 3 || g.coin(); Enc be = base == 1 ? Enc::MacRoman : base == 0 ? Enc::WinAnsi : Enc::Standard; std::string enc;
    if (!dict && base == 2) dict = true; std::string bname = base == 0 ? "/WinAnsiEncoding" : base == 1 ? "/MacRomanEncoding" : "/StandardEncoding";
    if (!dict) enc = bname; else { enc = "<< /Type /Encoding "; if (base < 2 || (base == 2 && g.coin())) enc += "/BaseEncoding " + bname + " "; auto& names = reftext::glyphNames(); std::string d; unsigned runs = (unsigned)g.draw(5); int at = 0; for (unsigned r = 0; r < runs; r++) { at = (int)(g.chance(1, 6) ? g.range(246, 255) : g.draw(255)); d += std::to_string(at) + ws(g); unsigned n = (unsigned)g.range(1, 6); for (unsigned i = 0; i < n && at < 256; i++, at++) { std::string nm; switch (g.draw(5)) { case 0: { uint32_t c = cp(g); char b[16]; if (c > 0xFFFF) c = 0x416; snprintf(b, 16, "uni%04X", c); nm = b; g.label("uniXXXX"); break; } case 1: if (g.chance(1, 3)) { char b[16]; snprintf(b, 16, "u%05X", 0x1F600 + (unsigned)g.draw(50)); nm = b; g.label("uXXXXX"); break; } else if (g.chance(1, 3)) { nm = g.pick<std::string>({ "g123", "unicorn", "uni", "universal", "uniXYZW", "u12", "u0041x", "C0_1", "glyph-7" }); g.label("unknown name"); break; } /* fall through */ default: nm = names[g.draw(names.size() - 1)].first; } diff[at] = nm; d += "/" + nm + ws(g); } } if (runs || g.coin()) enc += "/Differences [ " + d + "] "; enc += ">>"; if (!diff.empty()) g.nontrivial(); }
    bool std14 = g.chance(1, 3); int fc = (int)g.draw(40), lc = 255; std::string w; for (int i = fc; i <= lc; i++) w += "500 "; std::string font = std14 ? "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding " + enc + " >>" : "<< /Type /Font /Subtype /" + g.pick<std::string>({ "Type1", "TrueType" }) + " /BaseFont /Test /FirstChar " + std::to_string(fc) + " /LastChar 255 /Widths [ " + w + "] /FontDescriptor " + ref_(desc) + " /Encoding " + (g.coin() ? enc : ref_(dict ? dictObj(doc, enc) : [&]() -> PdfObject& { auto& o = doc.GetObjects().CreateDictionaryObject(); o = toObj(Lexer(enc).value()); return o; }())) + " >>"; g.trace(font);
    auto& fo = dictObj(doc, font); PdfFont* f = doc.GetFonts().GetLoadedFont(fo); CHECK("font", f != nullptr, "font is not loaded"); auto& e = f->GetEncoding();
    auto model = [&](int c) -> uint32_t { auto d = diff.find(c); return d != diff.end() ? reftext::glyphName(d->second) : be == Enc::Standard && c == 0x60 ? 0 : reftext::decode(be, (uint8_t)c); };
    std::vector<int> def; for (int c = 0; c < 256; c++) if (model(c)) def.push_back(c);
    for (int c : def) { char32_t u = e.GetCodePoint(PdfCharCode((unsigned)c, 1)); CHECK("code", reftext::same(u, model(c)), "code " << c << (diff.count(c) ? " (" + diff[c] + ")" : "") << " is U+" << std::hex << (unsigned)u << " instead of U+" << model(c)); }
    std::string s; std::vector<uint32_t> want; unsigned n = (unsigned)g.range(1, 15); for (unsigned i = 0; i < n; i++) { int c = def[g.draw(def.size() - 1)]; if (!diff.empty() && g.chance(1, 3)) { auto it = diff.begin(); std::advance(it, (long)g.draw(diff.size() - 1)); if (model(it->first)) c = it->first; } s += (char)c; want.push_back(model(c)); }
    std::string out; CHECK("to-text", e.TryConvertToUtf8(ps(s), out), "codes that are defined are not converted"); auto got = reftext::cps(out); CHECK("to-text", std::equal(got.begin(), got.end(), want.begin(), want.end(), reftext::same), show(s) << " is read as " << out << " instead of " << txt(want));
    // text the encoding has
    charbuff b; CHECK("encode", e.TryConvertToEncoded(out, b) && b.size() == s.size(), "the text " << out << " is not encoded"); std::string es(b.data(), b.size()); for (size_t i = 0; i < es.size(); i++) CHECK("encode", reftext::same(model((unsigned char)es[i]), want[i]) || (be == Enc::Standard && es[i] == 0x60 && want[i] == 0x60), "character " << utf8({ want[i] }) << " is encoded as " << (int)(unsigned char)es[i]);
    // and a character it lacks
    uint32_t no; bool has; int tries = 0; do { no = g.chance(1, 3) ? (uint32_t)g.range(0x4E00, 0x9000) : cp(g); has = no == 0x60; for (int c = 0; c < 256; c++) if (reftext::same(model(c), no)) has = true; } while (has && tries++ < 20); if (!has && no != 0x2C9 && no != 0xFFFF) { bool thrown = false; CHECK("lacks", !e.TryConvertToEncoded(txt({ want[0], no }), b), "U+" << std::hex << no << " is encoded although the encoding lacks it: " << show(std::string(b.data(), b.size()))); try { e.ConvertToEncoded(txt({ no })); } catch (PdfError&) { thrown = true; } CHECK("lacks", thrown, "no error for a character the encoding lacks"); }
    CHECK("nul", !e.TryConvertToEncoded(std::string("\0", 1), b), "NUL is encoded as " << show(std::string(b.data(), b.size())));
}
// difference encodings made in memory, and maps from CIDs to glyphs
PROP(C20, made, 6000, 300000, 5) {
    PdfMemDocument doc; if (g.coin()) {
        std::map<int, uint32_t> diff; PdfDifferenceList list; auto& names = reftext::glyphNames(); unsigned n = (unsigned)g.range(1, 12); for (unsigned i = 0; i < n; i++) { int c = (int)(g.chance(1, 3) ? g.pick<int>({ 0, 1, 254, 255 }) : g.draw(255)); uint32_t u; if (g.coin()) { auto& p = names[g.draw(names.size() - 1)]; u = p.second; list.AddDifference((unsigned char)c, PdfName(p.first)); } else { u = cp(g); if (u == 0x2126 || u == 0x2206) u = 0x416; list.AddDifference((unsigned char)c, (char32_t)u); } diff[c] = u; } g.nontrivial(); g.label("difference encoding"); Enc be = g.pick<Enc>({ Enc::WinAnsi, Enc::MacRoman }); PdfEncodingMapConstPtr base = be == Enc::WinAnsi ? PdfEncodingMapFactory::WinAnsiEncodingInstance() : PdfEncodingMapFactory::MacRomanEncodingInstance();
        auto map = std::make_shared<PdfDifferenceEncoding>(list, base); auto model = [&](int c) -> uint32_t { auto d = diff.find(c); return d != diff.end() ? d->second : reftext::decode(be, (uint8_t)c); };
        for (int c = 0; c < 256; c++) { uint32_t u = model(c); if (!u) continue; std::vector<char32_t> v; CHECK("code", map->TryGetCodePoints(PdfCharCode((unsigned)c, 1), v) && v.size() == 1 && reftext::same(v[0], u), "code " << c << " is not U+" << std::hex << u); PdfCharCode code; CHECK("char-code", map->TryGetCharCode(v[0], code) && code.CodeSpaceSize == 1 && reftext::same(model((int)code.Code), u), "code of U+" << std::hex << u << " is " << std::dec << code.Code); }
        PdfName name; PdfObject* obj = nullptr; CHECK("export", map->TryGetExportObject(doc.GetObjects(), name, obj) && obj, "no object for the encoding"); V d = fromObj(*obj); std::map<int, std::string> got; int at = -1; for (auto& v : d.m["Differences"].a) if (v.k == K::Int) at = (int)v.i; else { CHECK("export", v.k == K::Name && at >= 0, "array of differences"); got[at++] = v.s; } CHECK_EQ("export", got.size(), diff.size(), "number of differences"); for (auto& p : got) CHECK("export", reftext::glyphName(p.second) ? reftext::same(reftext::glyphName(p.second), diff[p.first]) : reftext::same((uint32_t)PdfDifferenceEncoding::NameToCodePoint(std::string_view(p.second)), diff[p.first]), "code " << p.first << " is written with the name " << p.second << " instead of one for U+" << std::hex << diff[p.first]); std::string bn = d.m.count("BaseEncoding") ? d.m["BaseEncoding"].s : "StandardEncoding"; CHECK_EQ("export-base", bn, std::string(be == Enc::WinAnsi ? "WinAnsiEncoding" : be == Enc::MacRoman ? "MacRomanEncoding" : "StandardEncoding"), "base encoding");
    } else {
        g.label("CID to glyph map"); std::map<unsigned, unsigned> m; unsigned n = (unsigned)g.range(1, 30); for (unsigned i = 0; i < n; i++) m[(unsigned)(g.coin() ? g.draw(20) : g.draw(400))] = (unsigned)(g.coin() ? g.range(1, 200) : g.range(1, 65535)); unsigned top = m.rbegin()->first; std::string raw; for (unsigned i = 0; i <= top; i++) { unsigned v = m.count(i) ? m[i] : 0; raw += (char)(v >> 8); raw += (char)v; } g.nontrivial();
        auto& so = streamObj(doc, "<< >>", raw); auto check = [&](const PdfCIDToGIDMap& mp, const char* what) { for (unsigned i = 0; i <= top; i++) { unsigned gid = 77777; bool ok = mp.TryMapCIDToGID(i, gid); CHECK("gid", (ok && gid == (m.count(i) ? m[i] : 0)) || (!ok && !m.count(i)), "CID " << i << " has the glyph " << gid << " instead of " << (m.count(i) ? m[i] : 0) << " " << what); } unsigned gid; CHECK("gid", !mp.TryMapCIDToGID(top + 1 + (unsigned)g.draw(70000), gid), "a CID that is not in the map has a glyph"); };
        check(PdfCIDToGIDMap::Create(so, PdfGlyphAccess::Width), "read from a stream"); CIDToGIDMap own(m.begin(), m.end()); PdfCIDToGIDMap mm2(std::move(own), PdfGlyphAccess::FontProgram); check(mm2, "as made"); auto& df = doc.GetObjects().CreateDictionaryObject(); mm2.ExportTo(df); std::string out = streamData(df.GetDictionary().MustFindKey("CIDToGIDMap")); CHECK("export-gids", out == raw, "the exported map is " << show(out) << " instead of " << show(raw));
    }
}
