#include "refrich.h"
namespace refrich {
using namespace mm; using pbt::Src;
std::string text(Src& g, unsigned max) { static const char* al[] = { "a", "b", "Z", "0", " ", "(", ")", "\\", "\xC3\xA9", "\xCE\xB1", "\xE2\x82\xAC", "-", "%", "/" }; std::string r; unsigned n = 1 + g.size(max - 1); for (unsigned i = 0; i < n; i++) r += al[g.draw(13)]; return r; }
PdfRect rect(Src& g) { return PdfRect((double)g.draw(200), (double)g.draw(200), 1 + (double)g.draw(100), 1 + (double)g.draw(100)); }
std::shared_ptr<PdfDestination> dest(Src& g, PdfMemDocument& doc) {
    auto& p = doc.GetPages().GetPageAt(g.index(doc.GetPages().GetCount()));
    switch (g.draw(4)) { case 0: return std::make_shared<PdfDestination>(p); case 1: return std::make_shared<PdfDestination>(p, rect(g)); case 2: return std::make_shared<PdfDestination>(p, (double)g.draw(100), (double)g.draw(100), (double)g.draw(3)); case 3: return std::make_shared<PdfDestination>(p, g.pick({ PdfDestinationFit::FitH, PdfDestinationFit::FitV, PdfDestinationFit::FitBH, PdfDestinationFit::FitBV }), (double)g.draw(300)); default: return std::make_shared<PdfDestination>(p, PdfDestinationFit::FitB); }
}
static PdfColor color(Src& g) { auto d = [&] { return (double)g.draw(4) / 4; }; switch (g.draw(2)) { case 0: return PdfColor(d()); case 1: return PdfColor(d(), d(), d()); default: return PdfColor(d(), d(), d(), d()); } }
static void draw(Src& g, PdfMemDocument& doc, PdfCanvas& c, const Opt& o) {
    if (!o.draw) return;
    PdfPainter p; p.SetCanvas(c); unsigned k = 1 + g.size(5);
    for (unsigned i = 0; i < k; i++) switch (g.draw(8)) {
        case 0: p.Rectangle(rect(g)); g.coin() ? p.Stroke() : p.Fill(g.coin()); break;
        case 1: p.DrawLine((double)g.draw(100), 2, (double)g.draw(100), (double)g.draw(50)); break;
        case 2: p.GetGraphicsState().SetFillColor(color(g)); p.GetGraphicsState().SetStrokeColor(color(g)); break;
        case 3: p.Save(); p.GetGraphicsState().SetLineWidth((double)g.draw(9) / 2); p.Circle(20, 20, 1 + (double)g.draw(9)); p.Stroke(); p.Restore(); break;
        case 4: if (o.fonts) { auto f = doc.GetFonts().GetFont(g.coin() ? "DejaVu Sans" : "DejaVu Sans Mono", PdfFontCreateParams{ PdfEncoding(), (PdfFontCreateFlags)(g.chance(1, 4) ? 4 : 0) }); if (f) { p.GetTextState().SetFont(*f, 6 + (double)g.draw(10)); std::string t; for (char ch : text(g)) if ((unsigned char)ch < 128) t += ch; p.DrawText(o.word + t, (double)g.draw(100), (double)g.draw(100)); } } break;
        case 5: if (o.fonts) { auto f = doc.GetFonts().GetStandard14Font(g.pick({ PdfStandard14FontType::Helvetica, PdfStandard14FontType::TimesBold, PdfStandard14FontType::Courier })); if (f) { p.GetTextState().SetFont(*f, 6 + (double)g.draw(10)); std::string t; for (char ch : text(g)) if ((unsigned char)ch < 128) t += ch; p.DrawText(o.word + t, (double)g.draw(100), (double)g.draw(100)); } } break;
        case 6: if (o.images) { auto im = doc.CreateImage(); unsigned w = 1 + (unsigned)g.draw(5), h = 1 + (unsigned)g.draw(5); std::string px(4 * ((w * 3 + 3) / 4) * h, '\x42'); for (auto& ch : px) ch = (char)g.draw(255); im->SetData(bufferview(px.data(), px.size()), w, h, PdfPixelFormat::RGB24, (int)(4 * ((w * 3 + 3) / 4))); p.DrawImage(*im, (double)g.draw(50), 3); } break;
        case 7: { PdfExtGState st(doc); st.SetFillOpacity((double)g.draw(4) / 4); if (g.coin()) st.SetBlendMode("Multiply"); p.SetExtGState(st); break; }
        default: p.GetGraphicsState().SetCurrentMatrix(Matrix::FromCoefficients(1, 0, 0, 1, (double)g.draw(10), 0)); break;
    }
    p.FinishDrawing();
}
void enrich(Src& g, PdfMemDocument& doc, unsigned ops, const Opt& o) {
    auto& pages = doc.GetPages(); if (pages.GetCount() == 0) pages.CreatePage(PdfRect(0, 0, 300, 400)); auto page = [&]() -> PdfPage& { return pages.GetPageAt(g.index(pages.GetCount())); };
    PdfOutlineItem* last = nullptr; unsigned serial = (unsigned)doc.GetObjects().GetSize() * 100;
    for (unsigned i = 0; i < ops; i++) {
        unsigned op = (unsigned)g.draw(14); g.trace("feature ", op); auto word = [&] { return PdfString(o.word + text(g)); };
        switch (op) {
            case 0: if (o.pages) { if (g.coin()) pages.CreatePage(rect(g)); else pages.CreatePageAt((unsigned)g.draw(pages.GetCount()), rect(g)); } break;
            case 1: case 2: draw(g, doc, page(), o); break;
            case 3: if (o.draw) { auto x = doc.CreateXObjectForm(rect(g)); draw(g, doc, *x, o); PdfPainter p; p.SetCanvas(page()); p.DrawXObject(*x, (double)g.draw(50), 5); p.FinishDrawing(); } break;
            case 4: { auto& out = doc.GetOrCreateOutlines(); if (!last || !out.First()) last = out.CreateRoot(word()); else switch (g.draw(2)) { case 0: last = last->CreateNext(word(), dest(g, doc)); break; case 1: last = last->CreateChild(word(), dest(g, doc)); break; default: last->SetTextColor(1, 0.5, 0); last->SetTextFormat(PdfOutlineFormat::Bold); } break; }
            case 5: { auto& a = page().GetAnnotations().CreateAnnot<PdfAnnotationText>(rect(g)); a.SetTitle(word()); a.SetContents(word()); a.SetFlags(PdfAnnotationFlags::Print); a.SetColor(color(g)); break; }
            case 6: { auto& a = page().GetAnnotations().CreateAnnot<PdfAnnotationLink>(rect(g)); if (g.coin()) a.SetDestination(dest(g, doc)); else { auto act = std::make_shared<PdfAction>(doc, PdfActionType::URI); act->SetURI(PdfString("http://" + o.word + "example/")); a.SetAction(act); } a.SetBorderStyle(1, 2, 3); break; }
            case 7: if (o.forms) { std::string name = "f" + std::to_string(serial++); switch (g.draw(3)) {
                case 0: { auto& f = page().CreateField<PdfTextBox>(name, rect(g)); f.SetText(word()); f.SetMaxLen(300); break; }
                case 1: { auto& f = page().CreateField<PdfComboBox>(name, rect(g)); f.InsertItem(word(), word()); f.InsertItem(word()); f.SetSelectedIndex(0); break; }
                case 2: { auto& f = page().CreateField<PdfCheckBox>(name, rect(g)); f.SetChecked(g.coin()); break; }
                default: { auto& f = page().CreateField<PdfPushButton>(name, rect(g)); f.SetCaption(word()); } } } break;
            case 8: doc.AddNamedDestination(*dest(g, doc), PdfString("d" + o.word + std::to_string(serial++))); break;
            case 9: if (o.attach) { std::string d = o.word + refdoc::genData(g, 200); PdfFileSpec fs(doc, "file" + std::to_string(serial++) + ".txt", d.data(), d.size()); doc.AttachFile(fs); } break;
            case 10: if (o.meta) { auto& m = doc.GetMetadata(); auto t = word(); switch (g.draw(3)) { case 0: m.SetTitle(t, g.coin()); break; case 1: m.SetAuthor(t, g.coin()); break; case 2: m.SetSubject(t); break; default: m.SetKeywords({ o.word + "k1", "k2" }); } if (g.chance(1, 4)) m.SyncXMPMetadata(true); } break;
            case 11: if (o.pages && pages.GetCount() > 1 && g.chance(1, 3)) pages.RemovePageAt(g.index(pages.GetCount())); break;
            case 12: { auto& p = page(); if (p.GetAnnotations().GetCount() && g.chance(1, 3) && p.GetAnnotations().GetAnnotAt(0).GetType() != PdfAnnotationType::Widget) p.GetAnnotations().RemoveAnnotAt(0); break; }
            case 13: { auto& p = page(); p.SetRotationRaw((int)g.draw(3) * 90); if (g.coin()) p.SetTrimBox(PdfRect(0, 0, 50, 60)); break; }
            default: { auto& a = page().GetAnnotations().CreateAnnot<PdfAnnotationSquare>(rect(g)); auto x = doc.CreateXObjectForm(PdfRect(0, 0, 20, 20)); draw(g, doc, *x, o); a.SetAppearanceStream(*x); a.SetContents(word()); }
        }
    }
}
}
