// C25: document metadata and dates are kept.
#include "refdoc.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the date has an offset or parts left out, or the metadata were changed or written as XMP before being loaded again";
    pbt::g_assumptions = "texts that go to XMP only have characters that XML can represent and are not blank\nmetadata read from both places are those of the information dictionary\ndates have years 0000 to 9999 and existing days";
} } init;
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
struct Dt { int y, m = 1, d = 1, h = 0, mi = 0, s = 0; bool off = false; int om = 0; int64_t secs() const { return days(y, m, d) * 86400 + h * 3600 + mi * 60 + s - (off ? om * 60 : 0); } };
static int mlen(int y, int m) { static const int l[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : l[m - 1]; }
static Dt genDt(pbt::Src& g) { Dt t; t.y = g.chance(1, 4) ? (int)g.draw(9999) : (int)g.range(1960, 2040); t.m = (int)g.range(1, 12); t.d = g.chance(1, 6) ? mlen(t.y, t.m) : (int)g.range(1, 28); t.h = g.chance(1, 4) ? g.pick<int>({ 0, 23 }) : (int)g.draw(23); t.mi = (int)g.draw(59); t.s = (int)g.draw(59); if (g.chance(2, 3)) { t.off = true; t.om = g.chance(1, 5) ? 0 : (int)g.range(-23 * 60 - 59, 23 * 60 + 59); } return t; }
static std::string p2(int v) { char b[16]; snprintf(b, 16, "%02d", v); return b; }
static std::string p4(int v) { char b[16]; snprintf(b, 16, "%04d", v); return b; }
static std::string pdfDate(const Dt& t) { std::string s = "D:" + p4(t.y) + p2(t.m) + p2(t.d) + p2(t.h) + p2(t.mi) + p2(t.s); if (t.off) { if (!t.om) s += "Z"; else s += (t.om < 0 ? "-" : "+") + p2(std::abs(t.om) / 60) + "'" + p2(std::abs(t.om) % 60) + "'"; } return s; }
static std::string w3cDate(const Dt& t) { std::string s = p4(t.y) + "-" + p2(t.m) + "-" + p2(t.d) + "T" + p2(t.h) + ":" + p2(t.mi) + ":" + p2(t.s); if (t.off) { if (!t.om) s += "Z"; else s += (t.om < 0 ? "-" : "+") + p2(std::abs(t.om) / 60) + ":" + p2(std::abs(t.om) % 60); } return s; }
static PdfDate toDate(const Dt& t) { return t.off ? PdfDate(std::chrono::seconds(t.secs()), std::chrono::minutes(t.om)) : PdfDate(std::chrono::seconds(t.secs()), nullable<std::chrono::minutes>()); }
static std::string show(const PdfDate& d) { return std::to_string(d.GetSecondsFromEpoch().count()) + (d.GetMinutesFromUtc().has_value() ? " offset " + std::to_string(d.GetMinutesFromUtc()->count()) : " no offset"); }
static bool is(const PdfDate& d, const Dt& t) { return d.GetSecondsFromEpoch().count() == t.secs() && d.GetMinutesFromUtc().has_value() == t.off && (!t.off || d.GetMinutesFromUtc()->count() == t.om); }
PROP(C25, dates, 60000, 5000000, 5) {
    Dt t = genDt(g); PdfDate d = toDate(t); std::string ps = pdfDate(t), ws = w3cDate(t); g.trace(ps, " ", ws); if (t.off) g.nontrivial();
    CHECK_EQ("to-string", std::string(d.ToString().GetString()), ps, "PDF notation of " << show(d)); CHECK_EQ("to-w3c", std::string(d.ToStringW3C().GetString()), ws, "W3C notation of " << show(d));
    // views that end where their memory ends
    auto parse = [&](const std::string& s, bool w3c, bool& ok) { std::vector<char> v(s.begin(), s.end()); v.shrink_to_fit(); PdfDate r; std::string_view view(v.data(), v.size()); bool thrown = false; ok = w3c ? PdfDate::TryParseW3C(view, r) : PdfDate::TryParse(view, r); PdfDate r2; try { r2 = w3c ? PdfDate::ParseW3C(view) : PdfDate::Parse(view); } catch (PdfError&) { thrown = true; } CHECK("parse-agree", thrown == !ok && (thrown || r == r2), "the two ways of reading " << s << " disagree"); return r; };
    bool ok; for (int w = 0; w < 2; w++) { PdfDate r = parse(w ? ws : ps, w, ok); CHECK("parse", ok && is(r, t), (w ? ws : ps) << " is read as " << show(r)); CHECK("same", r == d && !(r != d), "a date read back is not equal"); }
    { Dt o = t; switch (g.draw(2)) { case 0: o.s = (o.s + 1) % 60; break; case 1: o.off = !o.off; break; default: if (o.off) o.om = (o.om + 60) % 600; else o.mi = (o.mi + 1) % 60; } if (o.off != t.off || o.om != t.om || o.secs() != t.secs()) CHECK("different", toDate(o) != d && !(toDate(o) == d), "different dates are equal"); }
    // other ways to write it: parts left out, optional marks
    Dt u = t; int parts = (int)g.range(1, 6); if (parts < 6) { g.nontrivial(); g.label("parts left out"); } if (parts < 6) u.s = 0; if (parts < 5) u.mi = 0; if (parts < 4) u.h = 0; if (parts < 3) u.d = 1; if (parts < 2) u.m = 1; std::string s = p4(u.y); if (parts > 1) s += p2(u.m); if (parts > 2) s += p2(u.d); if (parts > 3) s += p2(u.h); if (parts > 4) s += p2(u.mi); if (parts > 5) s += p2(u.s);
    std::string z; if (u.off) { if (u.om == 0 && g.coin()) z = g.pick<std::string>({ "Z", "Z00", "Z00'00", "Z00'00'", "Z00'" }); else { z = (u.om < 0 || (u.om == 0 && g.coin()) ? "-" : "+") + p2(std::abs(u.om) / 60); switch (u.om % 60 ? 2 : g.draw(3)) { case 0: break; case 1: z += "'"; break; default: z += "'" + p2(std::abs(u.om) % 60); if (g.coin()) z += "'"; } } }
    s = (g.chance(1, 5) ? "" : "D:") + s + z; { PdfDate r = parse(s, false, ok); CHECK("parse-short", ok && is(r, u), s << " is read as " << (ok ? show(r) : "nothing")); }
    Dt v = t; int wp = (int)g.pick<int>({ 1, 2, 3, 5, 6 }); if (wp < 6) v.s = 0; if (wp < 5) v.mi = v.h = 0, v.off = false; if (wp < 3) v.d = 1; if (wp < 2) v.m = 1; std::string w = p4(v.y); if (wp > 1) w += "-" + p2(v.m); if (wp > 2) w += "-" + p2(v.d); if (wp > 3) w += "T" + p2(v.h) + ":" + p2(v.mi); if (wp > 5) { w += ":" + p2(v.s); if (g.chance(1, 3)) { w += "." + std::to_string(g.draw(999999)); g.label("fraction of a second"); } } if (v.off) w += v.om == 0 ? "Z" : (v.om < 0 ? "-" : "+") + p2(std::abs(v.om) / 60) + ":" + p2(std::abs(v.om) % 60);
    { PdfDate r = parse(w, true, ok); CHECK("parse-w3c-short", ok && is(r, v), w << " is read as " << (ok ? show(r) : "nothing")); }
    // malformed ones
    std::string bad; bool w3c = g.coin(); Dt b = t; switch (g.draw(6)) {
    case 0: b.m = (int)g.range(13, 99); bad = w3c ? w3cDate(b) : pdfDate(b); break; case 1: b.d = (int)g.range(32, 99); bad = w3c ? w3cDate(b) : pdfDate(b); break; case 2: b.h = (int)g.range(24, 99); bad = w3c ? w3cDate(b) : pdfDate(b); break; case 3: b.mi = (int)g.range(60, 99); bad = w3c ? w3cDate(b) : pdfDate(b); break; case 4: b.s = (int)g.range(60, 99); bad = w3c ? w3cDate(b) : pdfDate(b); break;
    case 5: { bad = w3c ? ws : ps; size_t n = w3c ? 19 : 16, at; do at = (w3c ? 0 : 2) + g.draw(n - 1 - (w3c ? 0 : 2)); while (!isdigit((unsigned char)bad[at])); bad[at] = g.pick<char>({ 'x', ' ', '/', ':', '\'', 'D', '\x80', '\xb2' }); g.label("letter among the digits"); if (!w3c && at > 2 && false) {} break; }
    default: bad = (w3c ? ws : ps) + g.pick<std::string>({ "x", " ", "Q1", "0", "-", "''", ":", "99" }); if (!w3c && !t.off && (bad.back() == '-')) bad += "x"; if (w3c && !t.off && bad.back() == '-') bad += "x"; if (t.off && t.om == 0 && (bad.back() == '0')) bad += "x"; break; }
    { parse(bad, w3c, ok); g.label("malformed"); CHECK("refused", !ok, bad << " is accepted"); }
}
// ---------------------------------------------------------------- metadata
typedef std::optional<std::string> Os;
struct Meta { Os t[6]; std::optional<Dt> cd, md; int pdfa = 0; };
static const char* KEY[] = { "Title", "Author", "Subject", "Keywords", "Creator", "Producer" };
static std::string xmlText(pbt::Src& g) { for (;;) { std::string s; unsigned n = (unsigned)g.range(1, 12); for (unsigned i = 0; i < n; i++) switch (g.draw(6)) { case 0: s += g.pick<char>({ '&', '<', '>', '"', '\'', ';', '#', '%', ']' }); break; case 1: s += utf8({ (uint32_t)g.pick<int>({ 0xE9, 0x20AC, 0x3A9, 0x6587, 0x1F600, 0x5D0, 0xFFFD, 0x2022 }) }); break; case 2: s += g.pick<std::string>({ "&amp;", "&#65;", "]]>", "<!--", " ", "&lt;", "\t", "\n" }); break; default: s += (char)g.range('a', 'z'); } bool blank = true; for (char c : s) if (!strchr(" \t\n\r", c)) blank = false; if (!blank) return s; } }
static std::string esc(pbt::Src& g, const std::string& s) { if (g.chance(1, 6) && s.find("]]>") == std::string::npos) return "<![CDATA[" + s + "]]>"; std::string o; for (char c : s) switch (c) { case '&': o += g.coin() ? "&amp;" : "&#38;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case '\n': case '\t': o += "&#" + std::to_string((int)c) + ";"; break; default: if (isalpha((unsigned char)c) && g.chance(1, 12)) { char b[16]; snprintf(b, 16, "&#x%x;", c); o += b; } else o += c; } return o; }
static const int LV[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 }; static const char* LVP[] = { "", "1B", "1A", "2B", "2A", "2U", "3B", "3A", "3U", "4E", "4F" };
// a packet as another producer could write it
static std::string foreign(pbt::Src& g, const Meta& m) {
    std::vector<std::pair<std::string, std::string>> parts; auto ns = [](const std::string& p) { return p == "dc" ? "xmlns:dc=\"http://purl.org/dc/elements/1.1/\"" : p == "pdf" ? "xmlns:pdf=\"http://ns.adobe.com/pdf/1.3/\"" : p == "xmp" ? "xmlns:xmp=\"http://ns.adobe.com/xap/1.0/\"" : "xmlns:pdfaid=\"http://www.aiim.org/pdfa/ns/id/\""; };
    std::string nl = g.pick<std::string>({ "\n", "\n   ", "" }); auto list = [&](const char* el, const char* kind, const std::string& v) { return std::string("<dc:") + el + ">" + nl + "<rdf:" + kind + ">" + nl + "<rdf:li" + (std::string(kind) == "Alt" ? " xml:lang=\"x-default\"" : "") + ">" + esc(g, v) + "</rdf:li>" + nl + "</rdf:" + kind + ">" + nl + "</dc:" + el + ">"; };
    if (m.t[0]) parts.push_back({ "dc", list("title", "Alt", *m.t[0]) }); if (m.t[1]) parts.push_back({ "dc", list("creator", "Seq", *m.t[1]) }); if (m.t[2]) parts.push_back({ "dc", list("description", "Alt", *m.t[2]) });
    auto simple = [&](const char* p, const char* el, const std::string& v) { parts.push_back({ p, std::string("<") + p + ":" + el + ">" + esc(g, v) + "</" + p + ":" + el + ">" }); };
    std::string attrs; auto either = [&](const char* p, const char* el, const std::string& v) { if (g.coin()) simple(p, el, v); else { g.label("property as an attribute"); std::string a; for (char c : v) switch (c) { case '&': a += "&amp;"; break; case '<': a += "&lt;"; break; case '"': a += "&quot;"; break; case '\n': case '\t': a += "&#" + std::to_string((int)c) + ";"; break; default: a += c; } attrs += std::string(" ") + p + ":" + el + "=\"" + a + "\""; if (attrs.find(ns(p)) == std::string::npos) attrs = std::string(" ") + ns(p) + attrs; } };
    if (m.t[3]) either("pdf", "Keywords", *m.t[3]); if (m.t[4]) either("xmp", "CreatorTool", *m.t[4]); if (m.t[5]) either("pdf", "Producer", *m.t[5]); if (m.cd) either("xmp", "CreateDate", w3cDate(*m.cd)); if (m.md) either("xmp", "ModifyDate", w3cDate(*m.md)); if (m.pdfa) { simple("pdfaid", "part", std::string(1, LVP[m.pdfa][0])); simple("pdfaid", "conformance", LVP[m.pdfa] + 1); }
    for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[g.draw(i - 1)]);
    std::string body; bool many = g.coin() && parts.size() > 1; if (many) g.label("several descriptions"); auto open = [&](const std::string& a) { return "<rdf:Description rdf:about=\"\"" + a + ">"; };
    if (many) { body += open(attrs); body += "</rdf:Description>" + nl; for (auto& p : parts) body += open(std::string(" ") + ns(p.first)) + nl + p.second + nl + "</rdf:Description>" + nl; } else { std::string a = attrs; for (const char* p : { "dc", "pdf", "xmp", "pdfaid" }) if (a.find(ns(p)) == std::string::npos) a += std::string(" ") + ns(p); body = open(a) + nl; if (g.chance(1, 4)) body += "<!-- a comment -->"; for (auto& p : parts) body += p.second + nl; body += "</rdf:Description>" + nl; }
    std::string s = "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">" + nl + body + "</rdf:RDF></x:xmpmeta>"; if (g.chance(3, 4)) s = "<?xpacket begin=\"\xEF\xBB\xBF\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>" + nl + s + nl + "<?xpacket end=\"w\"?>"; return s;
}
// texts of the properties of a packet, found without an XML library
static std::string unesc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s.compare(i, 9, "<![CDATA[") == 0) { size_t e = s.find("]]>", i); o += s.substr(i + 9, e - i - 9); i = e + 2; continue; } if (s[i] != '&') { o += s[i]; continue; } size_t e = s.find(';', i); if (e == std::string::npos) pbt::fail("xmp-entity", "bare ampersand in the packet"); std::string n = s.substr(i + 1, e - i - 1); if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\''; else if (n.size() > 1 && n[0] == '#') o += utf8({ (uint32_t)(n[1] == 'x' ? strtoul(n.c_str() + 2, 0, 16) : strtoul(n.c_str() + 1, 0, 10)) }); else pbt::fail("xmp-entity", "entity " + n); i = e; } return o; }
static Os element(const std::string& x, const std::string& name) { size_t a = x.find("<" + name + ">"), n = name.size() + 2; if (x.find("<" + name + "/>") != std::string::npos) return std::string(); if (a == std::string::npos) return {}; if (x.find("<" + name + ">", a + 1) != std::string::npos) pbt::fail("xmp-twice", name + " is in the packet more than once"); size_t e = x.find("</" + name + ">", a); if (e == std::string::npos) pbt::fail("xmp-element", name + " is not closed"); std::string in = x.substr(a + n, e - a - n); size_t li = in.find("<rdf:li"); if (li != std::string::npos) { size_t b = in.find('>', li); if (in[b - 1] == '/') return std::string(); size_t f = in.find("</rdf:li>", b); in = in.substr(b + 1, f - b - 1); } return unesc(in); }
static void checkPacket(const std::string& x, const Meta& m, const char* when) {
    static const char* EL[] = { "dc:title", "dc:creator", "dc:description", "pdf:Keywords", "xmp:CreatorTool", "pdf:Producer" };
    for (int i = 0; i < 6; i++) { Os v = element(x, EL[i]); CHECK("xmp-text", v == m.t[i], KEY[i] << " in the packet " << when << " is " << (v ? *v : "missing") << " instead of " << (m.t[i] ? *m.t[i] : "missing")); }
    Os c = element(x, "xmp:CreateDate"), d = element(x, "xmp:ModifyDate"); CHECK("xmp-date", c.has_value() == m.cd.has_value() && (!c || *c == w3cDate(*m.cd)), "creation date in the packet " << when << ": " << (c ? *c : "missing") << " instead of " << (m.cd ? w3cDate(*m.cd) : "missing")); CHECK("xmp-date", d.has_value() == m.md.has_value() && (!d || *d == w3cDate(*m.md)), "modification date in the packet " << when << ": " << (d ? *d : "missing") << " instead of " << (m.md ? w3cDate(*m.md) : "missing"));
    Os p = element(x, "pdfaid:part"), f = element(x, "pdfaid:conformance"); std::string lv = (p ? *p : "") + (f ? *f : ""); CHECK_EQ("xmp-level", lv, std::string(LVP[m.pdfa]), "PDF/A level in the packet " << when);
}
struct St { Meta info, xmp, e; bool has = false, pend = false, ours = false; };
static void merge(St& s) { s.e = Meta(); for (int i = 0; i < 6; i++) s.e.t[i] = s.info.t[i] ? s.info.t[i] : s.has ? s.xmp.t[i] : Os(); s.e.cd = s.info.cd ? s.info.cd : s.has ? s.xmp.cd : s.info.cd; s.e.md = s.info.md ? s.info.md : s.has ? s.xmp.md : s.info.md; s.e.pdfa = s.has ? s.xmp.pdfa : 0; s.pend = false; }
static void checkMeta(PdfDocument& doc, const St& s, const char* when) {
    auto& md = doc.GetMetadata(); auto txt = [&](const nullable<PdfString>& v, int i) { Os got; if (v.has_value()) got = v->GetString(); CHECK("text", got == s.e.t[i], KEY[i] << " " << when << " is " << (got ? *got : "missing") << " instead of " << (s.e.t[i] ? *s.e.t[i] : "missing")); };
    txt(md.GetTitle(), 0); txt(md.GetAuthor(), 1); txt(md.GetSubject(), 2); txt(md.GetKeywordsRaw(), 3); txt(md.GetCreator(), 4); txt(md.GetProducer(), 5);
    auto dt = [&](const nullable<PdfDate>& v, const std::optional<Dt>& w, const char* n) { CHECK("date", v.has_value() == w.has_value() && (!w || is(*v, *w)), n << " " << when << " is " << (v.has_value() ? show(*v) : "missing") << " instead of " << (w ? pdfDate(*w) : "missing")); };
    dt(md.GetCreationDate(), s.e.cd, "the creation date"); dt(md.GetModifyDate(), s.e.md, "the modification date"); CHECK_EQ("level", (int)md.GetPdfALevel(), s.e.pdfa, "PDF/A level " << when);
}
static std::string infoText(pbt::Src& g, bool xml) { return xml ? xmlText(g) : utf8(genText(g, 12, (int)g.draw(3))); }
static Meta genMeta(pbt::Src& g, bool xml) { Meta m; for (auto& t : m.t) if (g.coin()) t = infoText(g, xml); if (g.coin()) m.cd = genDt(g); if (g.coin()) m.md = genDt(g); return m; }
static bool same(const std::optional<Dt>& a, const std::optional<Dt>& b) { return a.has_value() == b.has_value() && (!a || pdfDate(*a) == pdfDate(*b)); }
// (a packet that already has the metadata may be left as it is)
static void syncXmp(St& s, bool force) { if (!s.has && !s.pend && !force) return; if (s.has && s.xmp.pdfa == s.e.pdfa && same(s.xmp.cd, s.e.cd) && same(s.xmp.md, s.e.md) && std::equal(s.e.t, s.e.t + 6, s.xmp.t)) return; s.xmp = s.e; s.has = s.ours = true; merge(s); }
PROP(C25, metadata, 16000, 500000, 20) {
    St s; bool xml = g.chance(2, 3); std::deque<std::string> files; std::unique_ptr<PdfMemDocument> doc(new PdfMemDocument()); doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    auto info = [&](PdfDocument& d) -> std::string { auto x = d.GetCatalog().GetMetadataStreamValue(); return x; };
    { auto p = doc->GetMetadata().GetProducer(); s.e.t[5] = s.info.t[5] = p.has_value() ? Os(p->GetString()) : Os(); auto c = doc->GetMetadata().GetCreationDate(); CHECK("created", c.has_value(), "a new document has no creation date"); doc->GetMetadata().SetCreationDate(nullptr); }
    merge(s);
    if (g.chance(1, 2)) { // starts from a file of another producer
        g.label("foreign metadata"); St n; n.info = genMeta(g, xml); if (xml && g.chance(2, 3)) { n.has = true; n.xmp = genMeta(g, true); n.xmp.pdfa = (int)g.draw(10); }
        V iv = V::dict(); for (int i = 0; i < 6; i++) if (n.info.t[i]) iv.m[KEY[i]] = (V::str(textBytes(*n.info.t[i]))); if (n.info.cd) iv.m["CreationDate"] = (V::str(pdfDate(*n.info.cd))); if (n.info.md) iv.m["ModDate"] = (V::str(pdfDate(*n.info.md))); 
        if (!n.info.cd && g.chance(1, 4)) { iv.m["CreationDate"] = (V::str(g.pick<std::string>({ "yesterday", "D:20209999", "D:20200101000000 and more" }))); g.label("malformed date"); }
        PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& tr = const_cast<PdfObject&>(d.GetTrailer().GetObject()).GetDictionary(); auto& io = d.GetObjects().CreateObject(toObj(iv)); tr.AddKey("Info", io.GetIndirectReference());
        if (n.has) { std::string x = foreign(g, n.xmp); g.trace("packet ", x); auto& o = d.GetObjects().CreateDictionaryObject("Metadata", "XML"); o.GetOrCreateStream().SetData(bufferview(x.data(), x.size())); d.GetCatalog().GetDictionary().AddKey("Metadata", o.GetIndirectReference()); }
        files.push_back(""); StringStreamDevice dev(files.back()); d.Save(dev, PdfSaveOptions::NoModifyDateUpdate | PdfSaveOptions::NoCollectGarbage); merge(n); s = n; if (g.coin()) checkMeta(*doc, *std::make_unique<St>([&] { St q; q.info.t[5] = doc->GetMetadata().GetProducer()->GetString(); merge(q); return q; }()), "before loading"); doc->LoadFromBuffer(bufferview(files.back().data(), files.back().size())); checkMeta(*doc, s, "after loading");
    }
    unsigned n = (unsigned)g.range(1, 12); bool changed = false;
    for (unsigned k = 0; k < n; k++) { auto& md = doc->GetMetadata(); bool sync = g.coin(); switch (g.draw(11)) {
        case 0: case 1: case 2: case 3: { int i = (int)g.draw(5); Os v; if (g.chance(4, 5)) v = infoText(g, xml); if (i == 3) { std::vector<std::string> kw; if (v) { unsigned c = (unsigned)g.range(1, 3); for (unsigned j = 0; j < c; j++) { std::string w = j ? infoText(g, xml) : *v; std::string y; for (char ch : w) if (ch != '\r' && ch != '\n') y += ch; if (y.empty()) y = "k"; bool blank = true; for (char ch : y) if (!strchr(" \t", ch)) blank = false; if (blank) y = "w"; kw.push_back(y); } } g.trace("keywords ", kw.size()); md.SetKeywords(kw, sync); if (kw.empty()) v.reset(); else { v = ""; for (size_t j = 0; j < kw.size(); j++) *v += (j ? "\r\n" : "") + kw[j]; } auto got = doc->GetMetadata().GetKeywords(); CHECK("keywords", got == kw, got.size() << " keywords instead of " << kw.size()); g.label("keywords"); }
            else { g.trace("set ", KEY[i], " ", v ? *v : "(none)", sync ? " and XMP" : ""); PdfString ps; if (v) ps = PdfString(*v); nullable<const PdfString&> a; if (v) a = nullable<const PdfString&>(ps); switch (i) { case 0: md.SetTitle(a, sync); break; case 1: md.SetAuthor(a, sync); break; case 2: md.SetSubject(a, sync); break; case 4: md.SetCreator(a, sync); break; default: md.SetProducer(a, sync); } }
            if (s.e.t[i] != v) { s.e.t[i] = v; s.info.t[i] = v; changed = true; } else if (sync) s.info.t[i] = v; if (sync) syncXmp(s, false); break; }
        case 4: { std::optional<Dt> v; if (g.chance(4, 5)) v = genDt(g); bool c = g.coin(); nullable<PdfDate> a; if (v) a = toDate(*v); g.trace(c ? "created " : "modified ", v ? pdfDate(*v) : "(none)"); if (c) { md.SetCreationDate(a, sync); s.e.cd = v; s.info.cd = v; } else { md.SetModifyDate(a, sync); s.e.md = v; s.info.md = v; } changed = true; if (sync) syncXmp(s, false); break; }
        case 5: if (xml) { bool f = g.coin(); g.trace("sync", f ? " and create" : ""); md.SyncXMPMetadata(f); syncXmp(s, f); if (f) { g.label("written as XMP"); g.nontrivial(); } } break;
        case 6: if (xml) { int lv = (int)g.draw(10); g.trace("level ", lv); md.SetPdfALevel((PdfALevel)lv, sync); if (s.e.pdfa != lv || sync) { bool same = s.e.pdfa == lv; if (lv && !(same && !sync)) { if (!s.has) s.pend = true; s.info.cd = s.e.cd; s.info.md = s.e.md; } s.e.pdfa = lv; if (sync) syncXmp(s, false); g.label("PDF/A level"); } break; }
            break;
        case 7: if (xml) { g.trace("ensure"); md.EnsureXMPMetadata(); if (!s.has) s.pend = true; s.info.cd = s.e.cd; s.info.md = s.e.md; } break;
        case 8: { auto t = g.pick<std::string>({ "True", "False", "Unknown", "Maybe" }); md.SetTrapped(PdfName(t)); CHECK_EQ("trapped", md.GetTrapped(), t == "Maybe" ? std::string("Unknown") : t, "trapped"); break; }
        case 9: if (xml && g.coin()) { g.trace("take"); auto p = md.TakeXMPPacket(); CHECK_EQ("taken", p != nullptr, s.has || s.pend, "packet taken"); if (p) checkPacket(p->ToString(), s.e, "that was taken"); merge(s); } break;
        default: { // saved and loaded again
            bool upd = g.chance(1, 3) && !files.empty(), now = g.chance(1, 4), into = g.coin(); g.trace(upd ? "update" : "save", now ? " with the modification date" : ""); auto o = now ? PdfSaveOptions::None : PdfSaveOptions::NoModifyDateUpdate; std::string out; if (upd) out = files.back(); { StringStreamDevice dev(out); if (upd) doc->SaveUpdate(dev, o); else { out.clear(); dev.Seek(0); doc->Save(dev, o); } } if (changed) g.nontrivial(); g.label(upd ? "updated and loaded again" : "saved and loaded again");
            if (now) { auto m = doc->GetMetadata().GetModifyDate(); CHECK("saved-date", m.has_value() && std::llabs(m->GetSecondsFromEpoch().count() - (int64_t)time(nullptr)) < 300, "modification date of a saved document"); Dt d; int64_t off = m->GetMinutesFromUtc().has_value() ? m->GetMinutesFromUtc()->count() : 0; int64_t l = m->GetSecondsFromEpoch().count() + off * 60; int64_t dn = l / 86400; d.y = 1970; while (days(d.y + 1, 1, 1) <= dn) d.y++; d.m = 1; while (d.m < 12 && days(d.y, d.m + 1, 1) <= dn) d.m++; d.d = (int)(dn - days(d.y, d.m, 1)) + 1; d.h = (int)(l % 86400 / 3600); d.mi = (int)(l % 3600 / 60); d.s = (int)(l % 60); d.off = m->GetMinutesFromUtc().has_value(); d.om = (int)off; s.e.md = s.info.md = d; syncXmp(s, false); }
            files.push_back(out); if (into) doc->LoadFromBuffer(bufferview(files.back().data(), files.back().size())); else { doc.reset(new PdfMemDocument()); doc->LoadFromBuffer(bufferview(files.back().data(), files.back().size())); } merge(s); break; } }
        checkMeta(*doc, s, "after the edit"); }
    // what is stored
    std::string x = info(*doc); if (s.ours) checkPacket(x, s.xmp, "of the document"); auto io = doc->GetInfo(); for (int i = 0; i < 6; i++) { const PdfObject* v = io ? io->GetDictionary().FindKey(KEY[i]) : nullptr; Os got; if (v && v->IsString()) got = v->GetString().GetString(); CHECK("info-text", got == s.info.t[i] || (!got && s.has && s.xmp.t[i] == s.info.t[i]), KEY[i] << " of the information dictionary is " << (got ? *got : "missing") << " instead of " << (s.info.t[i] ? *s.info.t[i] : "missing")); }
}
