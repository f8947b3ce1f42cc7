// C14: no input makes the reader crash, overrun or hang.
#include "refrich.h"
#include <fcntl.h>
#include <unistd.h>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the input is not accepted unchanged as a valid one: at least one defect was planted in it and the reader did some work on it";
    pbt::g_assumptions = "any exception derived from std::exception counts as reporting an error\ntime is bounded by a CPU limit per case far above what inputs of this size need\nmemory errors are those AddressSanitizer and the checked standard library report";
} } init;
typedef std::string S;
template <class F> static bool guard(F f) { try { f(); return true; } catch (PdfError&) { } catch (std::exception&) { } return false; }
// ---- everything a program may ask about a loaded document --------------------------------
static void walkFont(pbt::Src& g, PdfFont& f) {
    guard([&] { auto& m = f.GetMetrics(); (void)m.GetFontNameSafe(); (void)m.GetFlags(); (void)m.GetWeight(); (void)m.GetStyle(); for (unsigned i : { 0u, 1u, 31u, 65u, 255u, 256u, 65535u, 0xFFFFFFFFu }) { double w; m.TryGetGlyphWidth(i, w); } std::vector<double> bb; m.GetBoundingBox(bb); });
    guard([&] { (void)f.GetEncoding().GetLimits(); (void)f.GetEncoding().GetFirstChar(); (void)f.GetEncoding().GetLastChar(); for (unsigned c : { 0u, 32u, 65u, 200u, 255u, 256u, 65535u, 0x10FFFFu, 0xFFFFFFFFu }) (void)f.GetEncoding().GetCodePoint(c); });
    PdfTextState st; st.FontSize = 10;
    for (int i = 0; i < 3; i++) { S s = i == 0 ? S("Ab \x01\xFF") : g.bytes(12); PdfString ps = strOf(s, false);
        guard([&] { (void)f.GetEncoding().ConvertToUtf8(ps); (void)f.GetEncoding().ConvertToCIDs(ps); double l; f.TryGetStringLength(ps, st, l); std::string u; std::vector<double> ls; std::vector<unsigned> po; f.TryScanString(ps, st, u, ls, po); });
        guard([&] { charbuff cb; f.GetEncoding().TryConvertToEncoded("Ab \xC3\xA9", cb); double l; f.TryGetStringLength(std::string_view("Ab \xCE\xB1"), st, l); }); }
    guard([&] { unsigned gid; for (char32_t c : { U'A', U' ', U'\0', (char32_t)0x10FFFF }) f.TryGetGID(c, PdfGlyphAccess::Width, gid); (void)f.GetWordSpacingLength(st);  (void)f.GetLineSpacing(st); (void)f.GetAscent(st); });
    if (g.chance(1, 6)) guard([&] { PdfFont* sub; f.TryGetSubstituteFont(sub); });
}
static void walkAction(PdfObject* o) { if (o) guard([&] { PdfAction a(*o); (void)a.GetType(); if (a.HasURI()) (void)a.GetURI(); if (a.HasScript()) (void)a.GetScript(); }); }
static void walkDest(const std::shared_ptr<PdfDestination>& d) { if (d) { guard([&] { (void)d->GetType(); (void)d->GetPage(); }); guard([&] { (void)d->GetZoom(); }); guard([&] { (void)d->GetRect(); }); guard([&] { (void)d->GetTop(); }); guard([&] { (void)d->GetLeft(); }); guard([&] { (void)d->GetDValue(); }); } }
static unsigned g_budget;
static void walkField(PdfField& f, unsigned depth) {
    if (depth > 12 || !g_budget) return; g_budget--;
    guard([&] { (void)f.GetType(); (void)f.GetName(); (void)f.GetNameRaw(); }); guard([&] { (void)f.GetFullName(true); }); guard([&] { (void)f.GetAlternateName(); (void)f.GetMappingName(); (void)f.IsReadOnly(); (void)f.IsRequired(); (void)f.IsNoExport(); }); guard([&] { (void)f.GetHighlightingMode(); }); guard([&] { (void)f.GetParentSafe(); (void)f.GetValueObject(); });
    guard([&] { switch (f.GetType()) {
        case PdfFieldType::TextBox: { auto& t = static_cast<PdfTextBox&>(f); guard([&] { (void)t.GetText(); }); guard([&] { (void)t.GetMaxLen(); (void)t.IsMultiLine(); }); break; }
        case PdfFieldType::ComboBox: case PdfFieldType::ListBox: { auto& c = static_cast<PdChoiceField&>(f); guard([&] { (void)c.GetSelectedIndex(); }); guard([&] { for (unsigned i = 0, n = c.GetItemCount(); i < n && i < 50; i++) { (void)c.GetItem(i); (void)c.GetItemDisplayText((int)i); } }); guard([&] { (void)c.GetItem(100000); }); break; }
        case PdfFieldType::CheckBox: { auto& c = static_cast<PdfCheckBox&>(f); guard([&] { (void)c.IsChecked(); (void)c.GetCaption(); }); break; }
        case PdfFieldType::RadioButton: case PdfFieldType::PushButton: { guard([&] { (void)static_cast<PdfButton&>(f).GetCaption(); }); break; }
        case PdfFieldType::Signature: { auto& s = static_cast<PdfSignature&>(f); guard([&] { (void)s.GetSignatureReason(); }); guard([&] { (void)s.GetSignatureDate(); }); guard([&] { (void)s.GetSignerName(); (void)s.GetSignatureLocation(); }); break; }
        default: break; } });
    guard([&] { auto& ch = f.GetChildren(); for (unsigned i = 0, n = ch.GetCount(); i < n && i < 20; i++) guard([&] { walkField(ch.GetFieldAt(i), depth + 1); }); });
}
static void walkContents(const PdfCanvas& c, int flags) {
    guard([&] { PdfContentReaderArgs a; a.Flags = (PdfContentReaderFlags)flags; PdfContentsReader r(c, a); PdfContent ct; for (unsigned i = 0; i < 4000 && r.TryReadNext(ct); i++) { for (unsigned k = 0; k < ct.Stack.GetSize(); k++) (void)ct.Stack[k].GetDataType(); } });
}
static void walkImage(PdfImage& im) {
    guard([&] { (void)im.GetWidth(); (void)im.GetHeight(); (void)im.GetRect(); }); guard([&] { (void)im.GetColorSpace(); });
    for (auto f : { PdfPixelFormat::RGB24, PdfPixelFormat::BGRA, PdfPixelFormat::Grayscale }) guard([&] { if ((uint64_t)im.GetWidth() * im.GetHeight() > 4000000) return; charbuff b; im.DecodeTo(b, f); });
    guard([&] { if ((uint64_t)im.GetWidth() * im.GetHeight() > 4000000) return; charbuff b; im.ExportTo(b, PdfExportFormat::Jpeg); });
}
static void walkAnnot(PdfAnnotation& a) {
    guard([&] { (void)a.GetType(); (void)a.GetRect(); }); guard([&] { (void)a.GetFlags(); (void)a.GetTitle(); (void)a.GetContents(); }); guard([&] { (void)a.GetColor(); });
    guard([&] { std::vector<PdfAppearanceIdentity> st; a.GetAppearanceStreams(st); (void)a.GetAppearanceStream(); (void)a.GetAppearanceDictionaryObject(); });
    guard([&] { if (auto l = dynamic_cast<PdfAnnotationLink*>(&a)) { guard([&] { walkDest(l->GetDestination()); }); guard([&] { (void)l->GetAction(); }); } else if (auto p = dynamic_cast<PdfAnnotationPopup*>(&a)) (void)p->GetOpen(); else if (auto t = dynamic_cast<PdfAnnotationText*>(&a)) (void)t->GetOpen(); else if (auto fa = dynamic_cast<PdfAnnotationFileAttachement*>(&a)) { if (auto fs = fa->GetFileAttachement()) (void)fs->GetFilename(true); } else if (auto w = dynamic_cast<PdfAnnotationWidget*>(&a)) guard([&] { walkField(const_cast<PdfField&>(w->GetField()), 0); }); });
}
static void walkOutline(PdfOutlineItem* o, unsigned depth) { unsigned k = 0; for (; o && k < 40 && depth < 12 && g_budget; o = o->Next(), k++) { g_budget--; guard([&] { (void)o->GetTitle(); (void)o->GetTextFormat(); }); guard([&] { (void)o->GetTextColorRed(); (void)o->GetTextColorGreen(); (void)o->GetTextColorBlue(); }); guard([&] { walkDest(o->GetDestination()); }); guard([&] { (void)o->GetAction(); }); walkOutline(o->First(), depth + 1); } }
static void walk(pbt::Src& g, PdfMemDocument& doc) {
    g_budget = 400;
    guard([&] { for (auto o : doc.GetObjects()) { guard([&] { (void)o->GetDataType(); }); guard([&] { if (auto s = o->GetStream()) { charbuff b; s->CopyTo(b); } }); guard([&] { if (auto s = o->GetStream()) { charbuff b; b = s->GetCopySafe(); } }); } });
    guard([&] { (void)doc.GetTrailer().GetObject().ToString(); });
    guard([&] { auto& m = doc.GetMetadata(); guard([&] { (void)m.GetTitle(); (void)m.GetAuthor(); (void)m.GetSubject(); (void)m.GetCreator(); (void)m.GetProducer(); (void)m.GetKeywords(); }); guard([&] { (void)m.GetCreationDate(); (void)m.GetModifyDate(); }); guard([&] { (void)m.GetPdfALevel(); (void)m.GetPdfVersion(); (void)m.GetTrapped(); }); });
    guard([&] { auto& p = doc.GetPages(); unsigned n = 0; guard([&] { n = p.GetCount(); }); for (unsigned i = 0; i < std::min(n, 6u); i++) guard([&] { PdfPage& pg = p.GetPageAt(i); guard([&] { (void)pg.GetMediaBox(); (void)pg.GetCropBox(); (void)pg.GetTrimBox(); (void)pg.GetArtBox(); (void)pg.GetBleedBox(); }); guard([&] { (void)pg.GetRotationRaw(); double t; (void)pg.HasRotation(t); }); guard([&] { (void)pg.GetRect(); (void)pg.GetPageNumber(); (void)pg.GetIndex(); });
            walkContents(pg, (int)g.draw(3));
            guard([&] { std::vector<PdfTextEntry> e; PdfTextExtractParams pr; pr.Flags = (PdfTextExtractFlags)g.draw(15); pg.ExtractTextTo(e, pr); }); guard([&] { std::vector<PdfTextEntry> e; pg.ExtractTextTo(e, g.coin() ? "A" : "the"); });
            guard([&] { auto& an = pg.GetAnnotations(); for (unsigned k = 0, c = an.GetCount(); k < std::min(c, 20u); k++) guard([&] { walkAnnot(an.GetAnnotAt(k)); }); }); }); if (n > 6) guard([&] { (void)p.GetPageAt(n - 1); }); guard([&] { (void)p.GetPageAt(n); }); });
    guard([&] { unsigned k = 0; for (auto o : doc.GetObjects()) { if (k > 200) break; if (!o->IsDictionary()) continue; k++;
            auto ty = o->GetDictionary().FindKey("Type"), su = o->GetDictionary().FindKey("Subtype"); S t = ty && ty->IsName() ? ty->GetName().GetString() : S(), s2 = su && su->IsName() ? su->GetName().GetString() : S();
            if (t == "Font") guard([&] { if (auto f = doc.GetFonts().GetLoadedFont(*o)) walkFont(g, *f); });
            if (s2 == "Image") guard([&] { std::unique_ptr<PdfImage> im; if (PdfXObject::TryCreateFromObject(*o, im)) walkImage(*im); });
            else if (t == "XObject" || s2 == "Form") guard([&] { std::unique_ptr<PdfXObject> x; if (PdfXObject::TryCreateFromObject(*o, x)) { (void)x->GetMatrix(); (void)x->GetRect(); if (auto fo = dynamic_cast<PdfXObjectForm*>(x.get())) walkContents(*fo, 0); } });
            if (t == "Action" || o->GetDictionary().HasKey("S")) walkAction(o);
            if (t == "Annot") guard([&] { std::unique_ptr<PdfAnnotation> a; if (PdfAnnotation::TryCreateFromObject(*o, a)) walkAnnot(*a); });
            if (o->GetDictionary().HasKey("FT") || o->GetDictionary().HasKey("T")) guard([&] { std::unique_ptr<PdfField> f; if (PdfField::TryCreateFromObject(*o, f)) walkField(*f, 0); });
            if (t == "Filespec") guard([&] { PdfFileSpec fs(*o); (void)fs.GetFilename(true); (void)fs.GetFilename(false); });
            if (o->GetDictionary().HasKey("FunctionType")) guard([&] { std::unique_ptr<PdfObject> x(new PdfObject(*o)); }); } });
    guard([&] { if (auto f = doc.GetAcroForm()) { (void)f->GetNeedAppearances(); for (unsigned i = 0, n = f->GetFieldCount(); i < std::min(n, 20u); i++) guard([&] { walkField(f->GetFieldAt(i), 0); }); } });
    guard([&] { if (auto o = doc.GetOutlines()) walkOutline(o->First(), 0); });
    guard([&] { if (auto nt = doc.GetNames()) { for (auto t : { "Dests", "EmbeddedFiles", "JavaScript" }) { guard([&] { PdfDictionary d; nt->ToDictionary(t, d); }); guard([&] { (void)nt->GetValue(t, PdfString("a")); (void)nt->HasValue(t, PdfString("zz")); }); } } });
    guard([&] { std::unique_ptr<PdfFileSpec> fs(doc.GetAttachment(PdfString("a"))); if (fs) (void)fs->GetFilename(true); });
    guard([&] { (void)doc.GetCatalog().GetPageMode(); (void)doc.GetCatalog().GetMetadataStreamValue(); });
}
static void edit(pbt::Src& g, PdfMemDocument& doc) {
    unsigned k = (unsigned)g.draw(3);
    for (unsigned i = 0; i < k; i++) guard([&] { auto& p = doc.GetPages(); switch (g.draw(9)) {
        case 0: p.CreatePage(PdfRect(0, 0, 10, 10)); break; case 1: p.CreatePageAt(0, PdfRect(0, 0, 10, 10)); break; case 2: if (p.GetCount()) p.RemovePageAt(g.index(std::min(p.GetCount(), 5u))); break;
        case 3: if (p.GetCount()) p.GetPageAt(0).SetMediaBox(PdfRect(0, 0, 5, 5)); break; case 4: doc.GetOrCreateOutlines().CreateRoot(PdfString("x")); break; case 5: break;
        case 6: if (p.GetCount()) { auto& a = p.GetPageAt(0).GetAnnotations(); if (a.GetCount()) a.RemoveAnnotAt(0); else a.CreateAnnot<PdfAnnotationText>(PdfRect(0, 0, 1, 1)); } break;
        case 7: if (p.GetCount()) { PdfPainter pt; pt.SetCanvas(p.GetPageAt(0)); pt.Rectangle(PdfRect(1, 2, 3, 4)); pt.FinishDrawing(); } break;
        case 8: if (p.GetCount()) doc.AddNamedDestination(PdfDestination(p.GetPageAt(0)), PdfString("n")); break;
        default: doc.GetMetadata().SetTitle(PdfString("t"), true); } });
}
static void exercise(pbt::Src& g, const S& bytes, unsigned how) {
    S keep = bytes; if (bytes.size() < 6000) g.trace("file: ", bytes); std::unique_ptr<PdfMemDocument> doc; bool ok = guard([&] { doc = loadMm(keep, how); });
    g.label(ok ? "loaded" : "load refused"); if (!ok) return; g.nontrivial();
    walk(g, *doc); bool saved = false;
    bool edited = g.coin(); if (edited) edit(g, *doc);
    switch (g.draw(3)) {
        case 0: guard([&] { save(*doc, genSave(g)); saved = true; }); break;
        case 1: guard([&] { S out = keep; StringStreamDevice dev(out); doc->SaveUpdate(dev, genSave(g)); saved = true; }); break;
        case 2: guard([&] { PdfMemDocument other; other.GetPages().AppendDocumentPages(*doc); walk(g, other); saved = true; }); break;
        default: break; }
    if (saved) g.label("saved or copied afterwards");
    // views of a malformed document (outline items, destinations) are not asked again after it was edited or collected
    if (!edited && !saved && g.chance(1, 4)) walk(g, *doc);
}
// ---- defects -------------------------------------------------------------------------------
static V anyValue(pbt::Src& g, int64_t maxObj) {
    switch (g.draw(11)) { case 0: return V::null(); case 1: return V::integer(g.pick<int64_t>({ 0, 1, -1, 2, 7, 255, 256, 65535, 65536, 2147483647, -2147483648LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, 100000 })); case 2: return V::real(g.pick({ 0.0, -1.5, 1e9, 1e-5, 3.4e38 })); case 3: return V::name(g.pick<S>({ "", "Font", "Page", "Pages", "FlateDecode", "Identity-H", "DeviceRGB", "XYZ", "Widget" })); case 4: return V::str(g.bytes(12), g.coin()); case 5: return V::arr(); case 6: { std::vector<V> a; unsigned n = g.size(6); for (unsigned i = 0; i < n; i++) a.push_back(g.coin() ? V::integer(g.range(-3, 300)) : V::refTo(g.range(1, maxObj))); return V::arr(a); }
        case 7: return V::dict(); case 8: { GenOpt o; o.depth = 2; o.maxObj = maxObj; return ref::gen(g, o); } case 9: return V::boolean(g.coin()); default: return V::refTo(g.range(1, maxObj + 1)); }
}
static std::vector<V*> slots(V& v) { std::vector<V*> r; std::function<void(V&)> f = [&](V& x) { for (auto& e : x.a) { r.push_back(&e); f(e); } for (auto& e : x.m) { r.push_back(&e.second); f(e.second); } }; f(v); return r; }
static void damageObj(pbt::Src& g, V& v, int64_t maxObj) {
    auto s = slots(v); if (s.empty() || g.chance(1, 12)) { v = anyValue(g, maxObj); return; } V* t = s[g.index(s.size())];
    switch (g.draw(5)) { case 0: case 1: case 2: *t = anyValue(g, maxObj); break; case 3: { V copy = *s[g.index(s.size())]; *t = std::move(copy); break; } case 4: if (t->k == K::Int) t->i += g.range(-2, 2); else if (t->k == K::Arr && t->a.size()) { if (g.coin()) t->a.pop_back(); else t->a.push_back(t->a[0]); } else *t = anyValue(g, maxObj); break; default: if (v.k == K::Dict && v.m.size()) { auto it = v.m.begin(); std::advance(it, g.index(v.m.size())); v.m.erase(it); } else *t = V::null(); }
}
static const char* TOKENS[] = { "obj", "endobj", "stream\n", "endstream", "xref\n", "trailer", "startxref\n", "%%EOF", "<<", ">>", "[", "]", "(", ")", "<", ">", "/", "R", " 0 R", "null", "true", "-", "+", ".", "/Length ", "/Prev ", "/Size ", "/Root ", "/Encrypt ", "/XRefStm ", "/W [", "/Index [", "/N ", "/First ", "/Type /ObjStm", "/Kids [", "/Count ", "/Parent ", "4294967295", "2147483648", "-1", "0", "65535 f \n", "0000000000 65535 f\r\n", "\r\n", "%", "\\", "#", "#00", "#xy", "%PDF-1.", "/Filter /FlateDecode", "/DecodeParms ", "/Predictor 15", "/Columns 4294967295", "{", "}" };
static S damageBytes(pbt::Src& g, S s, unsigned n) {
    for (unsigned i = 0; i < n; i++) { size_t p = s.empty() ? 0 : g.draw(s.size() - 1);
        switch (g.draw(9)) { case 0: if (s.size()) s[p] = (char)g.draw(255); break; case 1: if (s.size()) s[p] ^= (char)(1 << g.draw(7)); break; case 2: s.erase(p, 1 + g.size(20)); break; case 3: s.insert(p, TOKENS[g.draw(std::size(TOKENS) - 1)]); break;
            case 4: if (s.size()) { size_t q = g.draw(s.size() - 1), l = 1 + g.size(60); S part = s.substr(q, l); s.insert(p, part); } break; case 5: if (g.chance(1, 3)) s.resize(p); break;
            case 6: { size_t q = p; while (q < s.size() && !isdigit((unsigned char)s[q])) q++; size_t e = q; while (e < s.size() && isdigit((unsigned char)s[e])) e++; if (e > q) s.replace(q, e - q, g.pick<S>({ "0", "1", "-1", "65535", "4294967295", "2147483647", "99999999999999999999", "8388607", "7", "3" })); break; }
            case 7: { size_t q = p; while (q < s.size() && !isdigit((unsigned char)s[q])) q++; size_t e = q; while (e < s.size() && isdigit((unsigned char)s[e])) e++; if (e > q && e - q < 10) s.replace(q, e - q, std::to_string(strtoll(s.substr(q, e - q).c_str(), nullptr, 10) + g.range(-3, 3))); break; }
            case 8: { S t = TOKENS[g.draw(std::size(TOKENS) - 1)]; if (p + t.size() <= s.size()) s.replace(p, t.size(), t); break; } default: s.insert(p, g.bytes(8)); } }
    return s;
}
// ---- a document with one of everything, in the spelling of another producer --------------------
static S contentStream(pbt::Src& g, unsigned max) {
    static const char* ops[] = { "q", "Q", "cm", "w", "J", "j", "M", "d", "ri", "i", "gs", "m", "l", "c", "v", "y", "h", "re", "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n", "W", "W*", "BT", "ET", "Tc", "Tw", "Tz", "TL", "Tf", "Tr", "Ts", "Td", "TD", "Tm", "T*", "Tj", "TJ", "'", "\"", "d0", "d1", "CS", "cs", "SC", "SCN", "sc", "scn", "G", "g", "RG", "rg", "K", "k", "sh", "BI", "ID", "EI", "Do", "MP", "DP", "BMC", "BDC", "EMC", "BX", "EX" };
    S r; unsigned n = 1 + g.size(max); auto num = [&] { return g.chance(1, 12) ? g.pick<S>({ "1e5", "99999999999", "-.", "--1", "nan", "4294967296", "0.0000001" }) : std::to_string(g.range(-20, 700)) + (g.chance(1, 3) ? ".5" : ""); };
    for (unsigned i = 0; i < n; i++) switch (g.draw(11)) {
        case 0: { unsigned k = (unsigned)g.draw(6); for (unsigned j = 0; j < k; j++) r += num() + " "; r += S(ops[g.draw(std::size(ops) - 1)]) + "\n"; break; }
        case 1: r += "BT /F" + std::to_string(g.draw(6)) + " " + num() + " Tf " + num() + " " + num() + " Td (" + S(g.pick({ "Hello", "A B", "\\101\\377", "\\(x\\)", "" })) + ") Tj ET\n"; break;
        case 2: r += "BT /F" + std::to_string(g.draw(6)) + " 12 Tf 1 0 0 1 " + num() + " " + num() + " Tm [(ab) " + num() + " <" + S(g.pick({ "0041", "41", "4", "00", "FFFF", "D83D" })) + "> " + (g.chance(1, 6) ? "/X " : "") + "(c)] TJ T* (next) ' 1 2 (q) \" ET\n"; break;
        case 3: r += "/X" + std::to_string(g.draw(5)) + " Do\n"; break; case 4: r += "q " + num() + " 0 0 " + num() + " 5 5 cm Q\n"; break;
        case 5: r += S("BI /W ") + num() + " /H 2 /BPC 8 /CS /G ID " + g.bytes(8) + (g.chance(1, 5) ? "" : " EI\n"); break;
        case 6: r += "/Span <</MCID " + num() + " /ActualText (x) >> BDC (a) Tj EMC\n"; break; case 7: r += g.pick<S>({ "((", "<<", "[", "]", ">>", "{", "}", "<", ")", "%c\n", "(\\", "/", "/#", "BT BT", "ET ET", "Q Q Q", "q q q" }) + " "; break;
        case 8: r += "/F" + std::to_string(g.draw(7)) + " 10 Tf\n"; break; case 9: { unsigned k = (unsigned)g.draw(40); for (unsigned j = 0; j < k; j++) r += g.coin() ? "q " : "1 "; break; }
        case 10: r += "BT (T) Tj " + num() + " Tc " + num() + " Tw " + num() + " Tz (u v) Tj ET "; break; default: r += g.bytes(6); }
    return r;
}
static S cmapText(pbt::Src& g, unsigned max) {
    S r = "/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def\n"; unsigned n = 1 + g.size(max);
    auto code = [&] { return g.pick<S>({ "<00>", "<41>", "<0041>", "<FFFF>", "<010000>", "<01020304>", "<0102030405>", "<>", "<4>", "65", "-1", "0", "1e9", "4294967295", "(A)", "<00FF>", "<ff>", "<20>" }); }; auto dst = [&] { return g.chance(1, 3) ? g.pick<S>({ "<0041>", "<00410042>", "<D83DDE00>", "<D83D>", "<DC00>", "/A", "/space", "[<0041> <0042>]", "[/a]", "[]", "65", "-5", "<41>", "<>", "(x)", "[1 2]", "<FFFFFFFF>", "null", "<</A 1>>" }) : S("<0041>"); };
    for (unsigned i = 0; i < n; i++) { S cnt = g.chance(1, 8) ? g.pick<S>({ "0", "-1", "1000000", "", "x", "9 9" }) : "1"; switch (g.draw(6)) {
        case 0: r += cnt + " begincodespacerange " + code() + " " + code() + " endcodespacerange\n"; break; case 1: r += cnt + " beginbfchar " + code() + " " + dst() + " endbfchar\n"; break; case 2: r += cnt + " beginbfrange " + code() + " " + code() + " " + dst() + " endbfrange\n"; break;
        case 3: r += cnt + " begincidchar " + code() + " " + g.pick<S>({ "1", "65535", "-1", "<41>", "/x" }) + " endcidchar\n"; break; case 4: r += cnt + " begincidrange " + code() + " " + code() + " " + g.pick<S>({ "1", "65535", "-1", "<41>", "/x" }) + " endcidrange\n"; break; case 5: r += g.pick<S>({ "usecmap ", "<< ", "[ ", "( ", "{ ", "} ", "beginbfrange ", "def ", "endcmap " }); break; default: r += code() + " " + dst() + " "; } }
    return r + "endcmap end end";
}
static const S& fontFile() { static S f = [] { for (auto p : { "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf" }) { S s = slurp(p); if (!s.empty()) return s; } return S(); }(); return f; }
struct Zoo {
    pbt::Src& g; M m; int64_t next = 1; bool encodeStreams;
    Zoo(pbt::Src& g) : g(g) { encodeStreams = g.coin(); }
    int64_t add(V v) { int64_t n = next++; m.d.objs[n].v = v; return n; }
    int64_t stream(V v, const S& data) { int64_t n = add(v); setStream(g, m, n, data, encodeStreams); return n; }
    V N(const S& s) { return V::name(s); } V I(int64_t i) { return V::integer(i); } V R(int64_t i) { return V::refTo(i); } V T(const S& s) { return V::str(s); } V A(std::vector<V> v) { return V::arr(v); } V D(std::map<S, V> v) { return V::dict(v); }
    V box(int w, int h) { return A({ I(0), I(0), I(w), I(h) }); }
    S sep(int i) { return std::to_string(i); }
    V widths(unsigned n) { std::vector<V> w; for (unsigned i = 0; i < n; i++) w.push_back(I(g.range(0, 900))); return A(w); }
    int64_t descriptor(const S& name) { std::map<S, V> d{ { "Type", N("FontDescriptor") }, { "FontName", N(name) }, { "Flags", I(g.draw(64)) }, { "FontBBox", A({ I(-10), I(-20), I(500), I(700) }) }, { "Ascent", I(700) }, { "Descent", I(-200) }, { "StemV", I(80) }, { "ItalicAngle", I(0) }, { "CapHeight", I(600) } }; if (g.coin()) d["FontStretch"] = g.coin() ? N("Normal") : T("Normal"); if (g.coin()) d["FontFamily"] = T("Fam"); if (g.coin()) d["FontWeight"] = I(400); if (g.coin()) d["MissingWidth"] = I(300);
        if (g.chance(1, 3)) { S key = g.pick<S>({ "FontFile", "FontFile2", "FontFile3" }); S prog = g.chance(1, 3) ? fontFile() : g.chance(1, 2) ? g.bytes(60) : S("%!PS-AdobeFont-1.0: X\n/FontName /X def /Encoding 256 array dup 65 /A put readonly def currentfile eexec\n") + g.bytes(40); if (prog.size() > 1000) prog = damageBytes(g, prog.substr(0, g.chance(1, 4) ? 60000 : prog.size()), (unsigned)g.draw(3)); d[key] = R(stream(D({ { "Length1", I((int64_t)prog.size()) }, { "Subtype", N(g.pick<S>({ "Type1C", "OpenType", "CIDFontType0C" })) } }), prog)); }
        return add(D(d)); }
    V encoding() { switch (g.draw(5)) { case 0: return N(g.pick<S>({ "WinAnsiEncoding", "MacRomanEncoding", "MacExpertEncoding", "StandardEncoding", "Identity-H", "Nope" })); case 1: return R(add(D({ { "Type", N("Encoding") }, { "Differences", A({ I(65), N("A"), N("uni0041"), N("g12"), N(".notdef"), I(g.draw(260)), N("f_i") }) } }))); case 2: return D({ { "BaseEncoding", N("WinAnsiEncoding") }, { "Differences", A({ I(1), N("a1"), N("Euro") }) } }); case 3: return R(stream(D({ { "Type", N("CMap") }, { "CMapName", N("X") } }), cmapText(g, 4))); default: return N("WinAnsiEncoding"); } }
    int64_t font(int kind) {
        std::map<S, V> d{ { "Type", N("Font") }, { "BaseFont", N("ABCDEF+Xx") } }; if (g.chance(1, 3)) d["ToUnicode"] = R(stream(D({}), cmapText(g, 4)));
        switch (kind) { case 0: d["Subtype"] = N("Type1"); d["BaseFont"] = N(g.pick<S>({ "Helvetica", "Symbol", "ZapfDingbats", "Courier", "Times-Roman" })); if (g.coin()) d["Encoding"] = encoding(); break;
            case 1: case 2: d["Subtype"] = N(kind == 1 ? "TrueType" : "Type1"); d["FontDescriptor"] = R(descriptor("ABCDEF+Xx")); d["FirstChar"] = I(32); d["LastChar"] = I(40); d["Widths"] = widths(9); if (g.chance(3, 4)) d["Encoding"] = encoding(); break;
            case 3: { d["Subtype"] = N("Type3"); d["FontBBox"] = box(10, 10); d["FontMatrix"] = A({ V::real(0.001), I(0), I(0), V::real(0.001), I(0), I(0) }); d["FirstChar"] = I(97); d["LastChar"] = I(98); d["Widths"] = widths(2); d["Encoding"] = D({ { "Differences", A({ I(97), N("sq"), N("tri") }) } }); d["CharProcs"] = D({ { "sq", R(stream(D({}), "10 0 0 0 10 10 d1 0 0 10 10 re f")) } }); break; }
            default: { d["Subtype"] = N("Type0"); d["Encoding"] = g.chance(1, 3) ? encoding() : N("Identity-H"); std::map<S, V> c{ { "Type", N("Font") }, { "Subtype", N(g.coin() ? "CIDFontType2" : "CIDFontType0") }, { "BaseFont", N("Xx") }, { "CIDSystemInfo", D({ { "Registry", T("Adobe") }, { "Ordering", T("Identity") }, { "Supplement", I(0) } }) }, { "FontDescriptor", R(descriptor("Xx")) }, { "DW", I(500) }, { "W", A({ I(1), A({ I(100), I(200) }), I(10), I(20), I(300), I(40), R(add(A({ I(7) }))) }) } }; if (g.coin()) c["CIDToGIDMap"] = g.coin() ? N("Identity") : R(stream(D({}), g.bytes(40))); d["DescendantFonts"] = A({ R(add(D(c))) }); } }
        return add(D(d)); }
    int64_t image() { static const S png; unsigned bpc = g.pick({ 1u, 2u, 4u, 8u, 16u }); V cs = g.pick<V>({ N("DeviceGray"), N("DeviceRGB"), N("DeviceCMYK"), A({ N("Indexed"), N("DeviceRGB"), I(3), V::str("\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c") }), A({ N("ICCBased"), R(1) }), A({ N("CalRGB"), D({}) }), A({ N("Separation"), N("X"), N("DeviceCMYK"), D({ { "FunctionType", I(2) } }) }) }); int w = 1 + (int)g.draw(6), h = 1 + (int)g.draw(6);
        std::map<S, V> d{ { "Type", N("XObject") }, { "Subtype", N("Image") }, { "Width", I(w) }, { "Height", I(h) }, { "BitsPerComponent", I(bpc) }, { "ColorSpace", cs } }; if (g.chance(1, 4)) d["Mask"] = A({ I(0), I(1) }); if (g.chance(1, 4)) d["Decode"] = A({ I(1), I(0) }); if (g.chance(1, 5)) d["ImageMask"] = V::boolean(true); if (g.chance(1, 3)) d["SMask"] = R(stream(D({ { "Type", N("XObject") }, { "Subtype", N("Image") }, { "Width", I(w) }, { "Height", I(h) }, { "BitsPerComponent", I(8) }, { "ColorSpace", N("DeviceGray") } }), S((size_t)w * h, 'm')));
        if (g.chance(1, 4)) { int64_t n = add(D(d)); auto& o = m.d.objs[n]; o.hasStream = true; o.v.m["Filter"] = N(g.pick<S>({ "DCTDecode", "CCITTFaxDecode", "JPXDecode", "JBIG2Decode" })); if (g.coin()) o.v.m["DecodeParms"] = D({ { "K", I(-1) }, { "Columns", I(w) }, { "Rows", I(h) } }); o.raw = g.bytes(60); o.v.m["Length"] = I((int64_t)o.raw.size()); return n; }
        return stream(D(d), g.bytesExact((unsigned)(w * h * g.pick({ 1u, 3u, 4u })))); }
    void build() {
        int64_t cat = add(V()), pages = add(V()); std::vector<int64_t> fonts, xo; unsigned nf = 1 + (unsigned)g.draw(3); for (unsigned i = 0; i < nf; i++) fonts.push_back(font((int)g.draw(5))); if (g.coin()) xo.push_back(image());
        std::map<S, V> fd, xd; for (size_t i = 0; i < fonts.size(); i++) fd["F" + sep((int)i)] = R(fonts[i]); int64_t res = add(V());
        if (g.coin()) xo.push_back(stream(D({ { "Type", N("XObject") }, { "Subtype", N("Form") }, { "BBox", box(50, 50) }, { "Matrix", A({ I(1), I(0), I(0), I(1), I(3), I(4) }) }, { "Resources", R(res) } }), contentStream(g, 6))); for (size_t i = 0; i < xo.size(); i++) xd["X" + sep((int)i)] = R(xo[i]);
        m.d.objs[res].v = D({ { "Font", D(fd) }, { "XObject", D(xd) }, { "ExtGState", D({ { "G0", D({ { "CA", V::real(0.5) } }) } }) }, { "ColorSpace", D({ { "C0", A({ N("Separation"), N("S"), N("DeviceRGB"), R(1) }) } }) } });
        std::vector<V> kids; unsigned np = 1 + (unsigned)g.draw(2); std::vector<int64_t> pg; for (unsigned i = 0; i < np; i++) { pg.push_back(add(V())); kids.push_back(R(pg.back())); }
        std::vector<V> annots, fields; V dest = A({ R(pg[0]), N(g.pick<S>({ "XYZ", "Fit", "FitH", "FitR", "FitBV" })), I(1), I(2), I(0), I(5) });
        if (g.coin()) { int64_t act = add(D({ { "Type", N("Action") }, { "S", N(g.pick<S>({ "URI", "GoTo", "JavaScript", "Launch" })) }, { "URI", T("http://x") }, { "D", dest }, { "JS", T("a()") } })); static const char* kinds[] = { "Link", "Text", "Popup", "FreeText", "Square", "Ink", "FileAttachment", "Widget", "RichMedia", "Bogus", "Stamp", "Highlight" }; unsigned na = 1 + (unsigned)g.draw(3); for (unsigned i = 0; i < na; i++) { std::map<S, V> a{ { "Type", N("Annot") }, { "Subtype", N(kinds[g.draw(11)]) }, { "Rect", box(20, 20) }, { "Contents", T("c") }, { "T", T("t") }, { "F", I(4) }, { "C", A({ I(1), I(0), I(0) }) }, { "Dest", g.coin() ? dest : T("a") }, { "A", R(act) }, { "Open", V::boolean(true) }, { "QuadPoints", widths(8) } }; if (g.coin()) a["FS"] = D({ { "Type", N("Filespec") }, { "F", T("f.txt") }, { "UF", T("f.txt") } }); if (xo.size() && g.coin()) a["AP"] = D({ { "N", g.coin() ? R(xo.back()) : D({ { "On", R(xo.back()) }, { "Off", V::null() } }) } }); annots.push_back(R(add(D(a)))); } }
        if (g.coin()) { unsigned nf2 = 1 + (unsigned)g.draw(3); for (unsigned i = 0; i < nf2; i++) { int64_t parent = 0; std::map<S, V> f{ { "Type", N("Annot") }, { "Subtype", N("Widget") }, { "Rect", box(30, 10) }, { "FT", N(g.pick<S>({ "Tx", "Ch", "Btn", "Sig", "Zz" })) }, { "T", T("f" + sep((int)i)) }, { "TU", T("alt") }, { "Ff", I(g.pick<int64_t>({ 0, 1, 1 << 16, 1 << 15, 1 << 17, 4096 })) }, { "V", g.pick<V>({ T("v"), N("On"), D({ { "Type", N("Sig") }, { "ByteRange", A({ I(0), I(1), I(2), I(3) }) }, { "M", T("D:20200101") }, { "Reason", T("r") } }) }) }, { "Opt", A({ T("o1"), A({ T("e"), T("d") }) }) }, { "MaxLen", I(10) }, { "MK", D({ { "CA", T("cap") } }) }, { "AS", N("On") }, { "H", N("P") }, { "DA", T("/F0 12 Tf") } }; if (g.chance(1, 3)) { parent = add(D({ { "T", T("p") }, { "FT", N("Tx") } })); f["Parent"] = R(parent); } int64_t n = add(D(f)); if (parent) { m.d.objs[parent].v.m["Kids"] = A({ R(n) }); fields.push_back(R(parent)); } else fields.push_back(R(n)); annots.push_back(R(n)); } }
        for (unsigned i = 0; i < np; i++) { std::map<S, V> p{ { "Type", N("Page") }, { "Parent", R(pages) }, { "MediaBox", box(300, 400) }, { "Resources", R(res) }, { "Rotate", I(90) } }; V c1 = R(stream(D({}), contentStream(g, 10))); p["Contents"] = g.coin() ? c1 : A({ c1, R(stream(D({}), contentStream(g, 3))) }); if (i == 0 && annots.size()) p["Annots"] = A(annots); m.d.objs[pg[i]].v = D(p); }
        m.d.objs[pages].v = D({ { "Type", N("Pages") }, { "Kids", A(kids) }, { "Count", I(np) } }); std::map<S, V> c{ { "Type", N("Catalog") }, { "Pages", R(pages) } };
        if (fields.size()) c["AcroForm"] = D({ { "Fields", A(fields) }, { "DA", T("/F0 0 Tf") }, { "NeedAppearances", V::boolean(true) }, { "DR", R(res) } });
        if (g.coin()) { int64_t o = add(V()), o1 = add(V()), o2 = add(V()), o3 = add(V()); m.d.objs[o].v = D({ { "Type", N("Outlines") }, { "First", R(o1) }, { "Last", R(o2) }, { "Count", I(2) } }); m.d.objs[o1].v = D({ { "Title", T("one") }, { "Parent", R(o) }, { "Next", R(o2) }, { "First", R(o3) }, { "Last", R(o3) }, { "Dest", dest }, { "C", A({ I(1), I(0), I(0) }) } }); m.d.objs[o2].v = D({ { "Title", T("two") }, { "Parent", R(o) }, { "Prev", R(o1) }, { "Dest", T("a") } }); m.d.objs[o3].v = D({ { "Title", T("\xFE\xFF\xD8") }, { "Parent", R(o1) }, { "A", D({ { "S", N("GoTo") }, { "D", dest } }) } }); c["Outlines"] = R(o); }
        if (g.coin()) { int64_t leaf = add(D({ { "Names", A({ T("a"), dest, T("b"), D({ { "D", dest } }) }) }, { "Limits", A({ T("a"), T("b") }) } })); int64_t mid = add(D({ { "Kids", A({ R(leaf) }) }, { "Limits", A({ T("a"), T("b") }) } })); int64_t fsx = add(D({ { "Type", N("Filespec") }, { "F", T("x.bin") }, { "EF", D({ { "F", R(stream(D({ { "Type", N("EmbeddedFile") } }), "data")) } }) } })); c["Names"] = D({ { "Dests", D({ { "Kids", A({ R(mid) }) } }) }, { "EmbeddedFiles", D({ { "Names", A({ T("a"), R(fsx) }) } }) } }); }
        if (g.coin()) c["Metadata"] = R(stream(D({ { "Type", N("Metadata") }, { "Subtype", N("XML") } }), "<?xpacket begin=\"\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?><x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"><rdf:Description rdf:about=\"\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:xmp=\"http://ns.adobe.com/xap/1.0/\"><dc:title><rdf:Alt><rdf:li xml:lang=\"x-default\">T</rdf:li></rdf:Alt></dc:title><xmp:CreateDate>2020-01-02T03:04:05Z</xmp:CreateDate></rdf:Description></rdf:RDF></x:xmpmeta><?xpacket end=\"w\"?>"));
        if (g.chance(1, 4)) c["Extensions"] = D({ { "ADBE", D({ { "BaseVersion", N("1.7") }, { "ExtensionLevel", I(3) } }) } }); m.d.objs[cat].v = D(c); m.d.trailer = D({ { "Root", R(cat) }, { "ID", A({ T("0123456789abcdef"), T("0123456789abcdef") }) } });
        if (g.coin()) m.d.trailer.m["Info"] = R(add(D({ { "Title", T("t") }, { "CreationDate", T(g.pick<S>({ "D:20200101", "D:", "2020", "D:20209999999999Z00'00'", "D:2020010101" })) }, { "Trapped", N("True") } })));
        m.d.version = "1.7";
    }
};
// the objects are damaged, the file around them is sound
PROP(C14, objects, 5000, 400000, 12) {
    Zoo z(g); z.build(); unsigned k = 1 + g.size(5); auto nums = z.m.nums(); int64_t mx = z.m.max();
    for (unsigned i = 0; i < k; i++) { if (g.chance(1, 15)) { damageObj(g, z.m.d.trailer, mx); continue; } int64_t n = nums[g.index(nums.size())]; auto& o = z.m.d.objs[n]; if (o.hasStream && g.chance(1, 3)) o.raw = damageBytes(g, o.raw, 1 + g.size(3)); else { V old = o.v; damageObj(g, o.v, mx); if (o.hasStream && o.v.k != K::Dict) o.v = old; } g.trace("object ", n, " now ", show(o.v).substr(0, 300)); }
    Layout l; l.xref = (int)g.draw(1); l.objStreams = l.xref == 1 && g.coin(); S bytes; try { bytes = refdoc::write(g, z.m, l, false); } catch (SyntaxError&) { return; }
    exercise(g, bytes, (unsigned)g.draw(2));
}
// the bytes of a file are damaged: whatever layout, revisions, encrypted or not
PROP(C14, files, 5000, 400000, 12) {
    S bytes; switch (g.draw(3)) {
        case 0: { Zoo z(g); z.build(); Layout l; l.xref = (int)g.draw(2); l.objStreams = l.xref && g.coin(); bytes = refdoc::write(g, z.m, l, g.coin()); break; }
        case 1: { Opt o; o.extra = 6; o.pages = 2; M m = refdoc::gen(g, o); bytes = history(g, m, o, 1 + (unsigned)g.draw(2), g.coin()).bytes; break; }
        case 2: { PdfMemDocument d; refrich::Opt ro; ro.fonts = false; ro.images = g.coin(); refrich::enrich(g, d, 1 + g.size(6), ro); if (g.coin()) { static const PdfEncryptAlgorithm al[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3R6 }; d.SetEncrypted("", "o", PdfPermissions::Default, al[g.draw(3)], PdfKeyLength::L128); } bytes = save(d, genSave(g)); break; }
        default: { Zoo z(g); z.build(); Layout l; l.xref = (int)g.draw(1); bytes = refdoc::write(g, z.m, l, false); bytes = bytes.substr(0, bytes.size()); } }
    unsigned k = 1 + g.size(6);
    if (g.chance(1, 3)) { // close to the structures that steer the reader
        size_t p = bytes.rfind(g.pick<S>({ "startxref", "xref", "trailer", "/Size", "/Prev", "/W", "/Index", "/Encrypt", "/ObjStm", "stream", "obj" })); if (p != S::npos) { size_t b = p > 20 ? p - 20 : 0; S mid = damageBytes(g, bytes.substr(b, 120), k); bytes = bytes.substr(0, b) + mid + (b + 120 < bytes.size() ? bytes.substr(b + 120) : S()); } }
    else bytes = damageBytes(g, bytes, k);
    if (g.chance(1, 10)) bytes = g.bytes(30) + bytes;
    g.trace("file: ", pbt::show(bytes, 3000)); exercise(g, bytes, (unsigned)g.draw(2));
}
// values
PROP(C14, values, 20000, 3000000, 5) {
    GenOpt o; o.depth = 4; S s = ref::spell(ref::gen(g, o), &g); if (g.chance(1, 20)) { S open = g.pick<S>({ "[", "<<", "<</A", "<</A[", "(", "<" }); unsigned n = 1 + (unsigned)g.draw(g.chance(1, 10) ? 60000 : 300); S r; for (unsigned i = 0; i < n; i++) r += open; s = r + s; } s = damageBytes(g, s, 1 + g.size(5)); g.trace(pbt::show(s)); g.nontrivial();
    guard([&] { PdfTokenizer t; SpanStreamDevice d(s.data(), s.size()); PdfVariant v; for (int i = 0; i < 50; i++) t.ReadNextVariant(d, v); });
    guard([&] { PdfPostScriptTokenizer t; SpanStreamDevice d(s.data(), s.size()); PdfVariant v; PdfPostScriptTokenType ty; std::string_view kw; while (t.TryReadNext(d, ty, kw, v)) { } });
    guard([&] { PdfDate d = PdfDate::Parse(s); (void)d.ToString(); }); guard([&] { PdfDate d; (void)PdfDate::TryParse(s, d); (void)PdfDate::TryParseW3C(s, d); });
    guard([&] { (void)PdfName::FromEscaped(s); }); guard([&] { PdfString p = strOf(s, false); (void)p.GetString(); });
}
static S encodedBy(pbt::Src& g, const S& data, const S& f, V& parms) {
    if (f == "ASCIIHexDecode") return hexEncode(data, &g); if (f == "ASCII85Decode") return a85Encode(data, &g); if (f == "RunLengthDecode") return rlEncode(data, &g);
    int pred = g.pick({ 1, 2, 10, 12, 15 }), col = 1 + (int)g.draw(3), bpc = g.pick({ 1, 2, 4, 8, 16 }), cl = 1 + (int)g.draw(12); S d = data; if (pred > 1 || g.chance(1, 3)) { parms = V::dict({ { "Predictor", V::integer(pred) }, { "Colors", V::integer(col) }, { "BitsPerComponent", V::integer(bpc) }, { "Columns", V::integer(cl) } }); if (pred > 1) { size_t row = ((size_t)col * bpc * cl + 7) / 8; d.resize(d.size() / row * row); d = predictorEncode(d, pred, col, bpc, cl, &g); } }
    if (f == "LZWDecode") { int early = (int)g.draw(1); if (!early) { if (parms.k != K::Dict) parms = V::dict(); parms.m["EarlyChange"] = V::integer(0); } return lzwEncode(d, early, &g); }
    return deflateAll(d);
}
// stream decoders
PROP(C14, decoders, 9000, 1000000, 8) {
    static const char* fl[] = { "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "LZWDecode", "FlateDecode" }; S data = genData(g, 600); unsigned n = 1 + (unsigned)g.draw(2); std::vector<V> names, parms; for (unsigned i = 0; i < n; i++) { S f = fl[g.draw(4)]; V p; data = encodedBy(g, data, f, p); if (g.chance(1, 3)) data = damageBytes(g, data, 1 + g.size(2)); names.insert(names.begin(), V::name(f)); parms.insert(parms.begin(), p); g.label(f); }
    if (g.chance(1, 2)) data = damageBytes(g, data, 1 + g.size(4)); V d = V::dict({ { "Filter", V::arr(names) }, { "DecodeParms", V::arr(parms) } }); unsigned k = g.size(3); for (unsigned i = 0; i < k; i++) { auto s = slots(d.m["DecodeParms"]); if (s.size()) *s[g.index(s.size())] = anyValue(g, 3); } if (g.chance(1, 12)) damageObj(g, d, 3); if (d.k != K::Dict) return; g.nontrivial(); g.trace(show(d), " ", pbt::show(data));
    PdfMemDocument doc; auto& o = doc.GetObjects().CreateDictionaryObject(); guard([&] { for (auto& e : d.m) o.GetDictionary().AddKey(nameOf(e.first), toObj(e.second)); auto& st = o.GetOrCreateStream(); (void)st; });
    M m; m.d.objs[1].v = V::dict({ { "Type", V::name("Catalog") }, { "Pages", V::refTo(2) } }); m.d.objs[2].v = V::dict({ { "Type", V::name("Pages") }, { "Kids", V::arr() }, { "Count", V::integer(0) } }); auto& x = m.d.objs[3]; x.v = d; x.hasStream = true; x.raw = data; x.v.m["Length"] = V::integer((int64_t)data.size()); m.d.trailer = V::dict({ { "Root", V::refTo(1) } }); m.d.version = "1.7"; S bytes = refdoc::write(g, m, Layout(), false);
    std::unique_ptr<PdfMemDocument> ld; if (!guard([&] { ld = loadMm(bytes, (unsigned)g.draw(2)); })) return;
    guard([&] { auto* p = ld->GetObjects().GetObject(PdfReference(3, 0)); if (p && p->GetStream()) { charbuff b; p->GetStream()->CopyTo(b); (void)p->GetStream()->GetCopySafe(); auto in = p->GetStream()->GetInputStream(); char buf[7]; bool eof = false; for (int i = 0; i < 300 && !eof; i++) in.Read(buf, g.size(7), eof); auto in2 = p->GetStream()->GetInputStream(true); eof = false; for (int i = 0; i < 300 && !eof; i++) in2.Read(buf, 1 + g.size(6), eof); } });
}
// content streams
PROP(C14, contents, 6000, 600000, 8) {
    S s = contentStream(g, 30); if (g.coin()) s = damageBytes(g, s, 1 + g.size(6)); g.nontrivial(); g.trace(pbt::show(s, 3000));
    guard([&] { PdfContentReaderArgs a; a.Flags = (PdfContentReaderFlags)g.draw(3); if (g.chance(1, 3)) a.InlineImageHandler = [&](const PdfDictionary&, InputStreamDevice& d) { char c; for (int i = 0; i < 3; i++) if (!d.Read(c)) return false; return true; }; auto dev = std::make_shared<SpanStreamDevice>(s.data(), s.size()); PdfContentsReader r(dev, a); PdfContent c; unsigned i = 0; for (; i < 20000 && r.TryReadNext(c); i++) { } CHECK("endless", i < 20000, "the reader yields more items than the stream has bytes"); });
}
// character maps
PROP(C14, charmaps, 6000, 600000, 8) {
    PdfMemDocument doc; S s = cmapText(g, 12); if (g.chance(1, 3)) s = damageBytes(g, s, 1 + g.size(5)); g.trace(pbt::show(s, 3000)); g.nontrivial(); auto& o = doc.GetObjects().CreateDictionaryObject(); o.GetOrCreateStream().SetData(bufferview(s.data(), s.size()));
    guard([&] { auto m = PdfCMapEncoding::CreateFromObject(o); std::shared_ptr<PdfEncodingMap> sp(std::move(m)); (void)sp->GetLimits(); PdfEncoding e(sp, sp); for (int i = 0; i < 4; i++) { S t = g.bytes(10); guard([&] { (void)e.ConvertToUtf8(strOf(t, false)); (void)e.ConvertToCIDs(strOf(t, false)); }); guard([&] { S u = g.coin() ? "A\xC3\xA9" : t; std::string_view v = u; auto it = v.begin(); PdfCharCode c; while (it != v.end() && sp->TryGetNextCharCode(it, v.end(), c)) { } }); } for (unsigned c : { 0u, 65u, 0x4100u, 0xFFFFFFFFu }) { (void)e.GetCodePoint(c); std::vector<char32_t> cps; (void)sp->TryGetCodePoints(PdfCharCode(c), cps); } });
}

// refused inputs leave nothing behind: whatever was refused before, a valid document is still read entirely
PROP(C14, afterwards, 60, 4000, 60) {
    Opt o; o.extra = 5; o.pages = 1 + (unsigned)g.draw(3); M m = refdoc::gen(g, o); Layout l; l.xref = (int)g.draw(1); S good = refdoc::write(g, m, l, false);
    S keep0 = good; unsigned before = loadMm(keep0, 0)->GetPages().GetCount();
    unsigned n = 1 + (unsigned)g.draw(400), refused = 0, kind = (unsigned)g.draw(5), depth = 200 + (unsigned)g.draw(400); g.trace(n, " refused inputs of kind ", kind, " and depth ", depth);
    S deep; for (unsigned i = 0; i < depth; i++) deep += kind == 0 ? "[" : kind == 1 ? "<</A " : i % 2 ? "[" : "<</A ";
    S loop; { M h = m; for (auto i : h.nums()) { auto& d = h.d.objs[i].v; if (d.k != K::Dict) continue; auto t = d.m.find("Type"); if (t != d.m.end() && t->second.k == K::Name && t->second.s == "Pages") { if (kind == 3) d.m["Kids"] = V::arr({ V::refTo(i), V::refTo(i) }); else d.m["Parent"] = V::refTo(i); d.m["Count"] = V::integer(5); } } loop = refdoc::write(g, h, l, false); }
    if (kind == 5) { auto p = good.rfind("trailer"); loop = good; if (p != S::npos) { auto q = good.rfind("startxref"); S off = good.substr(q + 9); auto p2 = good.find("<<", p); loop = good.substr(0, p2 + 2) + "/Prev " + std::to_string(atoll(off.c_str())) + " " + good.substr(p2 + 2); } }
    for (unsigned i = 0; i < n; i++) {
        if (kind < 3) { if (!guard([&] { PdfTokenizer t; SpanStreamDevice d(deep.data(), deep.size()); PdfVariant v; t.ReadNextVariant(d, v); })) refused++; }
        else if (!guard([&] { auto d = loadMm(loop, 0); unsigned c = d->GetPages().GetCount(); for (unsigned k = 0; k < c && k < 4; k++) { auto& p = d->GetPages().GetPageAt(k); (void)p.GetMediaBox(); } })) refused++;
        if (kind >= 3 && i > 60) break;
    }
    if (refused) { g.nontrivial(); g.label("refused inputs before"); }
    if (refused > 256) g.label("more refusals than levels of nesting");
    std::unique_ptr<PdfMemDocument> d; try { d = loadMm(good, 0); } catch (PdfError& e) { pbt::fail("refused after others", S("a valid document is refused after refused inputs: ") + e.what()); }
    CHECK_EQ("pages after refusals", d->GetPages().GetCount(), before, "pages");
    { S nest(100, '['); nest += S(100, ']'); PdfTokenizer t; SpanStreamDevice dv(nest.data(), nest.size()); PdfVariant v; try { t.ReadNextVariant(dv, v); } catch (PdfError& e) { pbt::fail("nesting refused after others", S("a nested array is refused after refused inputs: ") + e.what()); } }
}

// structures that refer to themselves, directly or through any number of others
PROP(C14, cycles, 1200, 200000, 12) {
    M m; int64_t next = 1; auto add = [&](V v) { int64_t n = next++; m.d.objs[n].v = v; return n; }; auto stream = [&](int64_t n, V v, const S& data) { m.d.objs[n].v = v; setStream(g, m, n, data, false); }; auto N = [](const S& s) { return V::name(s); }; auto R = [](int64_t n) { return V::refTo(n); }; auto I = [](int64_t n) { return V::integer(n); }; V box = V::arr({ I(0), I(0), I(300), I(400) });
    auto some = [&](const std::vector<int64_t>& v) { return R(v[g.index(v.size())]); }; auto somes = [&](const std::vector<int64_t>& v, unsigned max) { std::vector<V> r; unsigned k = (unsigned)g.draw(max); for (unsigned i = 0; i < k; i++) r.push_back(some(v)); return V::arr(r); }; auto nodes = [&](unsigned max) { std::vector<int64_t> r; unsigned n = 1 + (unsigned)g.draw(max - 1); for (unsigned i = 0; i < n; i++) r.push_back(add(V())); return r; };
    int64_t cat = add(V()), font = add(V::dict({ { "Type", N("Font") }, { "Subtype", N("Type1") }, { "BaseFont", N("Helvetica") }, { "Encoding", N("WinAnsiEncoding") } }));
    // forms that draw one another
    auto forms = nodes(5); std::map<int64_t, std::vector<int64_t>> draws; auto contents = [&](int64_t self, unsigned max, V& res) { S c; std::map<S, V> xo; std::vector<int64_t> x; for (int i = 0; i < 3; i++) { x.push_back(forms[g.index(forms.size())]); xo["X" + std::to_string(i)] = R(x[i]); } res = V::dict({ { "XObject", V::dict(xo) }, { "Font", V::dict({ { "F0", R(font) } }) } }); unsigned k = (unsigned)g.draw(max); for (unsigned i = 0; i < k; i++) { if (g.chance(1, 3)) c += "BT /F0 10 Tf 10 10 Td (t) Tj ET\n"; unsigned w = (unsigned)g.draw(2); c += "q 1 0 0 1 2 3 cm /X" + std::to_string(w) + " Do Q\n"; draws[self].push_back(x[w]); } return c; };
    for (auto f : forms) { V res; S c = contents(f, 2, res); stream(f, V::dict({ { "Type", N("XObject") }, { "Subtype", N("Form") }, { "BBox", box }, { "Resources", res } }), c); }
    bool tree = g.chance(1, 3); auto pn = nodes(tree ? 4 : 1); auto pages = nodes(2); auto annots = nodes(4); auto fields = nodes(4);
    for (auto p : pages) { V res; S c = contents(p, 3, res); int64_t st = add(V()); stream(st, V::dict(), c); V pg = V::dict({ { "Type", N("Page") }, { "MediaBox", box }, { "Resources", res }, { "Contents", R(st) }, { "Parent", tree ? some(pn) : R(pn[0]) } }); if (g.coin()) pg.m["Annots"] = somes(annots, 4); m.d.objs[p].v = pg; }
    for (auto p : pn) { std::vector<V> k; if (tree) { auto all = pn; all.insert(all.end(), pages.begin(), pages.end()); k = somes(all, 4).a; } else for (auto x : pages) k.push_back(R(x)); V v = V::dict({ { "Type", N("Pages") }, { "Kids", V::arr(k) }, { "Count", I(tree ? g.range(0, 6) : (int64_t)pages.size()) } }); if (tree && g.chance(2, 3)) v.m["Parent"] = some(pn); m.d.objs[p].v = v; }
    for (auto a : annots) m.d.objs[a].v = V::dict({ { "Type", N("Annot") }, { "Subtype", N(g.pick<S>({ "Popup", "Text", "Link", "Widget" })) }, { "Rect", box }, { "Parent", some(annots) }, { "Popup", some(annots) }, { "AP", V::dict({ { "N", g.coin() ? some(forms) : some(annots) } }) }, { "T", V::str("a") } });
    for (auto f : fields) { V v = V::dict({ { "T", V::str("f") } }); if (g.chance(1, 2)) v.m["FT"] = N(g.pick<S>({ "Tx", "Btn", "Ch", "Sig" })); if (g.chance(3, 4)) v.m["Parent"] = some(fields); if (g.chance(3, 4)) v.m["Kids"] = somes(fields, 3); if (g.chance(1, 3)) v.m["V"] = some(fields); if (g.chance(1, 4)) v.m["DV"] = V::str("x"); m.d.objs[f].v = v; }
    V c = V::dict({ { "Type", N("Catalog") }, { "Pages", tree ? some(pn) : R(pn[0]) } }); unsigned what = (unsigned)g.draw(63);
    if (what & 1) { c.m["AcroForm"] = V::dict({ { "Fields", somes(fields, 3) } }); g.label("fields"); }
    if (what & 2) { auto o = nodes(5); for (auto i : o) { V v = V::dict({ { "Title", V::str("o") } }); for (auto k : { "First", "Last", "Next", "Prev", "Parent" }) if (g.chance(3, 5)) v.m[k] = some(o); if (g.chance(1, 3)) v.m["Dest"] = V::arr({ some(pages), N("Fit") }); if (g.chance(1, 3)) v.m["A"] = some(o); m.d.objs[i].v = v; } c.m["Outlines"] = some(o); g.label("outlines"); }
    if (what & 4) { auto n = nodes(4); for (auto i : n) { V v = V::dict(); if (g.chance(3, 4)) v.m["Kids"] = somes(n, 3); if (g.chance(1, 3)) v.m["Names"] = V::arr({ V::str("a"), some(n), V::str("b"), V::arr({ some(pages), N("Fit") }) }); if (g.chance(2, 3)) v.m["Limits"] = V::arr({ V::str("a"), V::str("zz") }); m.d.objs[i].v = v; } c.m["Names"] = V::dict({ { "Dests", some(n) }, { "EmbeddedFiles", some(n) }, { "JavaScript", some(n) } }); g.label("names"); }
    if (what & 8) { auto r = nodes(3); for (auto i : r) { m.d.objs[i].v = g.coin() ? some(r) : V::arr({ some(r), some(r) }); } static const char* keys[] = { "Metadata", "PageMode", "Version", "OpenAction", "Extensions", "Dests", "ViewerPreferences" }; c.m[keys[g.draw(6)]] = some(r); if (g.coin()) m.d.objs[pages[0]].v.m[g.pick<S>({ "MediaBox", "Contents", "Annots", "Rotate", "Resources", "CropBox" })] = some(r); if (g.coin()) m.d.trailer.m["Info"] = some(r); g.label("references to references"); }
    if (what & 16) { auto st = nodes(3); for (auto i : st) { m.d.objs[i].v = V::dict({ { "Type", N("X") } }); setStream(g, m, i, "abc", false); auto& d = m.d.objs[i].v; d.m[g.pick<S>({ "Filter", "DecodeParms", "F", "X" })] = g.coin() ? some(st) : V::arr({ some(st), N("FlateDecode") }); } g.label("streams"); }
    if (what & 32) { auto fo = nodes(4); for (auto i : fo) m.d.objs[i].v = V::dict({ { "Type", N("Font") }, { "Subtype", N(g.pick<S>({ "Type0", "CIDFontType2", "Type3", "TrueType" })) }, { "BaseFont", N("X") }, { "DescendantFonts", V::arr({ some(fo) }) }, { "Encoding", g.coin() ? some(fo) : N("Identity-H") }, { "FontDescriptor", some(fo) }, { "ToUnicode", some(fo) }, { "CharProcs", V::dict({ { "a", some(forms) } }) }, { "Resources", some(fo) } }); if (m.d.objs[pages[0]].v.m.count("Resources") && m.d.objs[pages[0]].v.m["Resources"].k == K::Dict) m.d.objs[pages[0]].v.m["Resources"].m["Font"] = V::dict({ { "F0", some(fo) } }); g.label("fonts"); }
    m.d.objs[cat].v = c; m.d.trailer.k = K::Dict; m.d.trailer.m["Root"] = R(cat); m.d.version = "1.7"; Layout l; l.xref = (int)g.draw(1); S bytes; try { bytes = refdoc::write(g, m, l, false); } catch (SyntaxError&) { return; } g.nontrivial();
    // a form that is already being drawn is not drawn again; any other one is
    bool recursive = false; size_t items = 0; std::vector<int64_t> path; std::function<void(int64_t)> expand = [&](int64_t n) { for (auto t : draws[n]) { if (items > 3000) return; items++; if (std::count(path.begin(), path.end(), t)) { recursive = true; continue; } path.push_back(t); expand(t); path.pop_back(); items++; } };
    if (!tree && !(what & 8)) { std::unique_ptr<PdfMemDocument> doc; S keep = bytes; g.trace("file: ", bytes); bool loads = guard([&] { doc = loadMm(keep, 0); }); CHECK("refused", loads || (what & 3), "a document with a sound page tree, without outlines and fields, was refused"); if (loads) for (unsigned i = 0; i < pages.size(); i++) { items = 0; path = { pages[i] }; expand(pages[i]); if (items > 3000) continue; size_t got = 0, steps = 0; PdfContentsReader r(doc->GetPages().GetPageAt(i)); PdfContent ct; while (r.TryReadNext(ct)) { if (++steps > 40000) break; if (ct.Type == PdfContentType::DoXObject || ct.Type == PdfContentType::EndXObjectForm) got++; } CHECK("endless-forms", steps <= 40000, "the contents of page " << i << " do not end"); CHECK_EQ("forms", got, items, "forms entered and left on page " << i); if (recursive) g.label("recursive forms"); } }
    exercise(g, bytes, (unsigned)g.draw(2));
}
