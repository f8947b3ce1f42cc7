// C19: form fields, annotations, actions and attachments keep what was set.
#include "refdoc.h"
#include <unistd.h>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the document has at least two fields and an attribute was set after another one, or at least three annotations, or an attachment was stored";
    pbt::g_assumptions = "texts are valid and not empty; a field that has or had children is not a widget itself\ncheck boxes use the states the library writes (Yes and Off)\nthe wrappers of a removed annotation or field are not used again; the name, alternate name and mapping name are read back on fields that have one\nan annotation has a destination or an action, not both";
} } init;
enum T { Push = 1, Check, Radio, Text, Combo, List, Sig };
struct A;
struct F { int type = 0; F* up = nullptr; std::vector<std::unique_ptr<F>> kids; bool hadKids = false; std::optional<std::string> t, tu, tm, v, rv, h; std::optional<int64_t> ff, maxLen; std::map<std::string, size_t> aa; std::vector<std::pair<std::string, std::optional<std::string>>> opt; A* widget = nullptr; bool wasWidget = false; };
struct A { int type = 0; size_t page = 0; double r[4] = { 0, 0, 0, 0 }; uint32_t flags = 4; std::optional<std::string> title, contents, ca, rc, ac; std::optional<std::vector<double>> color, bc, bg, border, quad; std::map<std::string, int64_t> ap; std::map<std::pair<std::string, std::string>, int64_t> aps; std::optional<std::string> as; std::optional<size_t> act; std::optional<size_t> dest; std::optional<bool> open; std::optional<std::string> file; F* field = nullptr; bool wasField = false; };
struct Act { int type = 0; std::optional<std::string> uri, js; };
struct W { std::vector<std::unique_ptr<F>> roots; std::vector<std::vector<std::unique_ptr<A>>> pages; std::vector<Act> acts; std::vector<std::shared_ptr<PdfAction>> actObjs; std::vector<std::unique_ptr<PdfXObjectForm>> forms; std::map<int64_t, PdfXObjectForm*> formOf; std::optional<bool> need; bool form = false; std::vector<std::unique_ptr<F>> gone; std::vector<std::unique_ptr<A>> goneA; };
static std::string txt(pbt::Src& g) { return utf8(genText(g, 1 + g.size(6), (int)g.draw(3))); }
static std::string show(const F& f) { return (f.up ? show(*f.up) + "/" : std::string()) + (f.t ? pbt::show(*f.t) : "(unnamed)"); }
static const char* FT(int type) { return type <= Radio ? "Btn" : type == Text ? "Tx" : type == Sig ? "Sig" : "Ch"; }
static void flat(std::vector<std::unique_ptr<F>>& l, std::vector<F*>& out) { for (auto& f : l) { out.push_back(f.get()); flat(f->kids, out); } }
static std::vector<F*> flat(W& w) { std::vector<F*> r; flat(w.roots, r); return r; }
static std::vector<A*> annots(W& w) { std::vector<A*> r; for (auto& p : w.pages) for (auto& a : p) r.push_back(a.get()); return r; }
template <class O> static const O* inh(const F& f, O F::*m) { for (auto p = &f; p; p = p->up) if (p->*m) return &(p->*m); return nullptr; }
static int64_t ffOf(const F& f) { auto p = inh(f, &F::ff); return p ? **p : 0; }
static std::string full(const F& f) { std::string r = f.up ? full(*f.up) : ""; if (!f.t) return r; return r.empty() ? *f.t : r + "." + *f.t; }
static std::vector<std::unique_ptr<F>>& list(W& w, F& f) { return f.up ? f.up->kids : w.roots; }
static size_t pos(W& w, F& f) { auto& l = list(w, f); size_t i = 0; while (l[i].get() != &f) i++; return i; }
static PdfField& at(PdfMemDocument& doc, W& w, F& f) { size_t i = pos(w, f); return f.up ? at(doc, w, *f.up).GetChildren().GetFieldAt((unsigned)i) : doc.GetAcroForm()->GetFieldAt((unsigned)i); }
static PdfAnnotation& at(PdfMemDocument& doc, W& w, A& a) { auto& l = w.pages[a.page]; size_t i = 0; while (l[i].get() != &a) i++; return doc.GetPages().GetPageAt((unsigned)a.page).GetAnnotations().GetAnnotAt((unsigned)i); }
static PdfField& wrapper(pbt::Src& g, PdfMemDocument& doc, W& w, F& f) { return f.widget && g.coin() ? static_cast<PdfAnnotationWidget&>(at(doc, w, *f.widget)).GetField() : at(doc, w, f); }
struct Flag { const char* what; int64_t bit; bool neg; int types; void (*set)(PdfField&, bool); bool (*get)(PdfField&); };
#define FL(cls, name, getter, bit, neg, types) { #name, (int64_t)1 << (bit), neg, types, [](PdfField& f, bool v) { static_cast<cls&>(f).Set##name(v); }, [](PdfField& f) { return static_cast<cls&>(f).getter(); } }
static const Flag FLAGS[] = { FL(PdfField, ReadOnly, IsReadOnly, 0, false, 0xFF), FL(PdfField, Required, IsRequired, 1, false, 0xFF), FL(PdfField, NoExport, IsNoExport, 2, false, 0xFF),
    FL(PdfTextBox, MultiLine, IsMultiLine, 12, false, 1 << Text), FL(PdfTextBox, PasswordField, IsPasswordField, 13, false, 1 << Text), FL(PdfTextBox, FileField, IsFileField, 20, false, 1 << Text), FL(PdfTextBox, SpellcheckingEnabled, IsSpellcheckingEnabled, 22, true, 1 << Text), FL(PdfTextBox, ScrollBarsEnabled, IsScrollBarsEnabled, 23, true, 1 << Text), FL(PdfTextBox, Combs, IsCombs, 24, false, 1 << Text), FL(PdfTextBox, RichText, IsRichText, 25, false, 1 << Text),
    FL(PdChoiceField, Sorted, IsSorted, 19, false, 1 << Combo | 1 << List), FL(PdChoiceField, MultiSelect, IsMultiSelect, 21, false, 1 << Combo | 1 << List), FL(PdChoiceField, SpellcheckingEnabled, IsSpellcheckingEnabled, 22, true, 1 << Combo | 1 << List), FL(PdChoiceField, CommitOnSelectionChange, IsCommitOnSelectionChange, 26, false, 1 << Combo | 1 << List), FL(PdfComboBox, Editable, IsEditable, 18, false, 1 << Combo) };
using StrGet = nullable<const PdfString&>;
static void str(const char* tag, StrGet got, const std::optional<std::string>& want, const std::string& id) { CHECK(tag, got.has_value() == want.has_value() && (!want || got->GetString() == *want), id << ": " << tag << " is " << (got.has_value() ? pbt::show(std::string(got->GetString())) : "absent") << ", expected " << (want ? pbt::show(*want) : "absent")); }
static bool near(double a, double b) { return std::fabs(a - b) <= 2e-6 * std::max(1.0, std::fabs(b)); }
static PdfColor color(const std::vector<double>& v) { return v.size() == 1 ? PdfColor(v[0]) : v.size() == 3 ? PdfColor(v[0], v[1], v[2]) : PdfColor(v[0], v[1], v[2], v[3]); }
static void col(const char* tag, const PdfColor& got, const std::optional<std::vector<double>>& want, const std::string& id) { PdfColor none; bool ok; if (!want) ok = got == none; else { auto arr = got.ToArray(); ok = arr.size() == want->size(); for (unsigned i = 0; ok && i < arr.size(); i++) ok = near(arr[i].GetReal(), (*want)[i]); } CHECK(tag, ok, id << ": " << tag << " differs from what was set"); }
static void checkAct(PdfAction& a, const Act& w, const std::string& id) { CHECK_EQ("action-type", (int)a.GetType(), w.type, id); CHECK("action", a.HasURI() == w.uri.has_value() && (!w.uri || a.GetURI().GetString() == *w.uri), id << ": URI of the action"); CHECK("action", a.HasScript() == w.js.has_value() && (!w.js || a.GetScript().GetString() == *w.js), id << ": script of the action"); }
static const char* AA[] = { "E", "X", "D", "U", "Fo", "Bl", "PO", "PC", "PV", "PI", "K", "V" };
static void (PdfField::*const AAS[])(const PdfAction&) = { &PdfField::SetMouseEnterAction, &PdfField::SetMouseLeaveAction, &PdfField::SetMouseDownAction, &PdfField::SetMouseUpAction, &PdfField::SetFocusEnterAction, &PdfField::SetFocusLeaveAction, &PdfField::SetPageOpenAction, &PdfField::SetPageCloseAction, &PdfField::SetPageVisibleAction, &PdfField::SetPageInvisibleAction, &PdfField::SetKeystrokeAction, &PdfField::SetValidateAction };
static const char* NAMES[] = { "", "Text", "Link", "FreeText", "Line", "Square", "Circle", "Polygon", "PolyLine", "Highlight", "Underline", "Squiggly", "StrikeOut", "Stamp", "Caret", "Ink", "Popup", "FileAttachment", "Sound", "Movie", "Widget", "Screen", "PrinterMark", "TrapNet", "Watermark", "3D", "RichMedia", "WebMedia", "Redact", "Projection" };
static const char* HS[] = { "N", "I", "O", "P" }; static const PdfHighlightingMode HM[] = { PdfHighlightingMode::None, PdfHighlightingMode::Invert, PdfHighlightingMode::InvertOutline, PdfHighlightingMode::Push };
static void checkField(PdfField& p, W& w, F& f, bool viaWidget) {
    std::string id = "field " + show(f) + (viaWidget ? " (from its annotation)" : ""); CHECK_EQ("type", (int)p.GetType(), f.type, id);
    str("partial name", p.GetNameRaw(), f.t, id); CHECK_EQ("full-name", p.GetFullName(), full(f), id); if (f.tu || !f.up) str("alternate name", p.GetAlternateName(), f.tu, id); if (f.tm || !f.up) str("mapping name", p.GetMappingName(), f.tm, id);
    if (f.t || !f.up) str("name", p.GetName(), f.t, id);
    for (auto& fl : FLAGS) if (fl.types >> f.type & 1) CHECK("flag", fl.get(p) == (((ffOf(f) & fl.bit) != 0) != fl.neg), id << ": " << fl.what << " is " << fl.get(p));
    if (f.type <= Radio) { auto& b = static_cast<PdfButton&>(p); CHECK("flag", b.IsPushButton() == (f.type == Push) && b.IsRadioButton() == (f.type == Radio) && b.IsCheckBox() == (f.type == Check), id << ": kind of the button"); } if (f.type == Combo || f.type == List) CHECK("flag", static_cast<PdChoiceField&>(p).IsComboBox() == (f.type == Combo), id << ": kind of the choice field");
    int hi = 1; if (f.h) for (int i = 0; i < 4; i++) if (*f.h == HS[i]) hi = i; CHECK_EQ("highlighting", (int)p.GetHighlightingMode(), (int)HM[hi], id);
    if (f.type == Text) { auto& x = static_cast<PdfTextBox&>(p); auto ml = inh(f, &F::maxLen); CHECK_EQ("max-length", x.GetMaxLen(), ml ? **ml : (int64_t)-1, id); if (!f.hadKids) { auto v = ffOf(f) >> 25 & 1 ? inh(f, &F::rv) : inh(f, &F::v); str("text", x.GetText(), v ? *v : std::optional<std::string>(), id); } else { bool threw = false; try { x.GetText(); } catch (PdfError&) { threw = true; } CHECK("text", threw, id << " has children and a text"); } }
    if (f.type == Check) { if (f.v || (!inh(f, &F::v) && (f.widget || !f.wasWidget))) { bool on = f.v ? *f.v == "Yes" : f.widget && f.widget->as && *f.widget->as == "Yes"; CHECK("checked", static_cast<PdfCheckBox&>(p).IsChecked() == on, id << ": check box is " << !on); } }
    if (f.type == Combo || f.type == List) { auto& x = static_cast<PdChoiceField&>(p); CHECK_EQ("items", (size_t)x.GetItemCount(), f.opt.size(), id); for (size_t i = 0; i < f.opt.size(); i++) { std::string v = x.GetItem((unsigned)i).GetString(); CHECK_EQ("item", v, f.opt[i].first, id << " item " << i); str("item text", x.GetItemDisplayText((int)i), f.opt[i].second ? *f.opt[i].second : f.opt[i].first, id); } if (!f.hadKids && (f.v || !inh(f, &F::v))) { int want = -1; if (f.v) for (size_t i = 0; i < f.opt.size() && want < 0; i++) if (f.opt[i].first == *f.v) want = (int)i; CHECK_EQ("selected", x.GetSelectedIndex(), want, id); } bool threw = false; try { x.GetItem((unsigned)f.opt.size()); } catch (PdfError&) { threw = true; } CHECK("items", threw, id << " has an item past the end"); }
    for (size_t i = 0; i < 12; i++) { auto aa = p.GetDictionary().FindKey("AA"); auto o = aa ? aa->GetDictionary().FindKey(AA[i]) : nullptr; auto it = f.aa.find(AA[i]); CHECK("field-action", (o != nullptr) == (it != f.aa.end()), id << ": action " << AA[i] << (o ? " is set" : " is not set")); if (o) { PdfAction a(*o); checkAct(a, w.acts[it->second], id + " action " + AA[i]); } }
    if (f.v && f.type != Sig) { auto v = p.GetValueObject(); CHECK("value", v && (f.type == Check ? v->GetName().GetString() : v->GetString().GetString()) == *f.v, id << ": value object"); }
}
static void checkTree(PdfMemDocument& doc, W& w, std::vector<std::unique_ptr<F>>& l, PdfField* up) {
    for (size_t i = 0; i < l.size(); i++) {
        F& f = *l[i]; PdfField& p = up ? up->GetChildren().GetFieldAt((unsigned)i) : doc.GetAcroForm()->GetFieldAt((unsigned)i); checkField(p, w, f, false); auto par = p.GetParentSafe(); std::string id = "field " + show(f); CHECK("parent", (par != nullptr) == (up != nullptr) && (!par || &par->GetObject() == &up->GetObject()), id << ": parent is " << (par ? par->GetObject().GetIndirectReference().ToString() : "none") << ", expected " << (up ? up->GetObject().GetIndirectReference().ToString() : "none"));
        auto ref = p.GetObject().GetIndirectReference(); auto& byRef = up ? up->GetChildren().GetField(ref) : doc.GetAcroForm()->GetField(ref); CHECK("by-reference", &byRef == &p, id << " is not found by its reference");
        if (f.widget) { auto& a = at(doc, w, *f.widget); CHECK("widget", &a.GetObject() == &p.GetObject(), id << " is not the object of its annotation"); checkField(static_cast<PdfAnnotationWidget&>(a).GetField(), w, f, true); if (f.type <= Radio) { auto& b = static_cast<PdfButton&>(static_cast<PdfAnnotationWidget&>(a).GetField()); str("caption", b.GetCaption(), f.widget->ca, id); if (f.type == Push) { str("rollover caption", static_cast<PdfPushButton&>(b).GetRolloverCaption(), f.widget->rc, id); str("alternate caption", static_cast<PdfPushButton&>(b).GetAlternateCaption(), f.widget->ac, id); } } }
        CHECK_EQ("children", (size_t)p.GetChildren().GetCount(), f.kids.size(), id); size_t n = 0; for (auto k : p.GetChildren()) { CHECK("children", k == &p.GetChildren().GetFieldAt((unsigned)n), id << ": enumeration of the children"); n++; } CHECK_EQ("children", n, f.kids.size(), id); checkTree(doc, w, f.kids, &p);
    }
}
static int64_t idOf(const PdfObject* o) { auto k = o ? o->GetDictionary().FindKey("VfId") : nullptr; return k ? k->GetNumber() : -1; }
static void checkAnnot(PdfAnnotation& p, W& w, A& a) {
    std::string id = std::string("annotation ") + NAMES[a.type]; CHECK_EQ("annot-type", (int)p.GetType(), a.type, id); auto r = p.GetRect(); CHECK("rect", near(r.GetLeft(), a.r[0]) && near(r.GetBottom(), a.r[1]) && near(r.GetWidth(), a.r[2]) && near(r.GetHeight(), a.r[3]), id << ": rectangle " << r.ToString()); CHECK_EQ("annot-flags", (uint32_t)p.GetFlags(), a.flags, id);
    if (a.type != 20) str("title", p.GetTitle(), a.title, id); str("contents", p.GetContents(), a.contents, id); col("color", p.GetColor(), a.color, id);
    auto b = p.GetDictionary().FindKey("Border"); CHECK("border", (b != nullptr) == a.border.has_value(), id << ": border"); if (b) { auto& arr = b->GetArray(); auto& wb = *a.border; CHECK("border", arr.size() == (wb.size() > 3 ? 4u : 3u) && near(arr[0].GetReal(), wb[0]) && near(arr[1].GetReal(), wb[1]) && near(arr[2].GetReal(), wb[2]), id << ": border"); if (wb.size() > 3) CHECK("border", arr[3].GetArray().size() == wb.size() - 3 && near(arr[3].GetArray()[0].GetReal(), wb[3]), id << ": dashes of the border"); }
    std::vector<PdfAppearanceIdentity> st; p.GetAppearanceStreams(st); std::map<std::string, int64_t> ap; std::map<std::pair<std::string, std::string>, int64_t> aps; for (auto& s : st) { std::string k = s.Type == PdfAppearanceType::Normal ? "N" : s.Type == PdfAppearanceType::Down ? "D" : "R"; if (s.State.IsNull()) ap[k] = idOf(s.Object); else aps[{ k, std::string(s.State.GetString()) }] = idOf(s.Object); } CHECK("appearances", ap == a.ap && aps == a.aps && st.size() == ap.size() + aps.size(), id << ": has " << ap.size() << "+" << aps.size() << " appearance streams, expected " << a.ap.size() << "+" << a.aps.size() << " or other ones");
    for (auto& x : a.ap) { auto t = x.first == "N" ? PdfAppearanceType::Normal : x.first == "D" ? PdfAppearanceType::Down : PdfAppearanceType::Rollover; CHECK_EQ("appearance", idOf(p.GetAppearanceStream(t)), x.second, id); CHECK("appearance", !p.GetAppearanceStream(t, "nostate"), id << ": state of a stream"); } for (auto& x : a.aps) { auto& k = x.first.first; auto t = k == "N" ? PdfAppearanceType::Normal : k == "D" ? PdfAppearanceType::Down : PdfAppearanceType::Rollover; CHECK_EQ("appearance", idOf(p.GetAppearanceStream(t, x.first.second)), x.second, id << " state " << x.first.second); }
    auto as = p.GetDictionary().FindKey("AS"); CHECK("state", (as != nullptr) == a.as.has_value() && (!as || as->GetName().GetString() == *a.as), id << ": appearance state");
    if (a.type == 20 || a.type == 2 || a.type == 21) { auto act = static_cast<PdfAnnotationActionBase&>(p).GetAction(); CHECK("action", (act != nullptr) == a.act.has_value(), id << (act ? ": has an action" : ": has no action")); if (act) checkAct(*act, w.acts[*a.act], id); }
    if (a.type == 2) { auto d = static_cast<PdfAnnotationLink&>(p).GetDestination(); CHECK("dest", (d != nullptr) == a.dest.has_value(), id << ": destination"); if (d) CHECK("dest", d->GetPage() && d->GetPage()->GetIndex() == *a.dest && d->GetType() == PdfDestinationType::Fit, id << ": page of the destination"); }
    if (a.type == 1) CHECK_EQ("open", static_cast<PdfAnnotationText&>(p).GetOpen(), a.open.value_or(false), id); if (a.type == 16) CHECK_EQ("open", static_cast<PdfAnnotationPopup&>(p).GetOpen(), a.open.value_or(false), id);
    auto quad = [&](nullable<const PdfArray&> q) { CHECK("quads", q.has_value() == a.quad.has_value() && (!a.quad || q->size() == a.quad->size()), id << ": quad points"); if (a.quad) for (unsigned i = 0; i < a.quad->size(); i++) CHECK("quads", near((*q)[i].GetReal(), (*a.quad)[i]), id << ": quad points"); };
    if (a.type == 2) quad(static_cast<PdfAnnotationLink&>(p).GetQuadPoints()); if (a.type >= 9 && a.type <= 12) quad(static_cast<PdfAnnotationTextMarkupBase&>(p).GetQuadPoints()); if (a.type == 28) quad(static_cast<PdfAnnotationRedact&>(p).GetQuadPoints());
    if (a.type == 17) { auto fs = static_cast<PdfAnnotationFileAttachement&>(p).GetFileAttachement(); CHECK("file", (fs != nullptr) == a.file.has_value(), id << ": file"); if (fs) { std::string n = fs->GetFilename(true).GetString(); CHECK_EQ("file", n, *a.file, id); } }
    if (a.type == 20 || a.type == 21) { auto mk = a.type == 20 ? static_cast<PdfAnnotationWidget&>(p).GetAppearanceCharacteristics() : static_cast<PdfAnnotationScreen&>(p).GetAppearanceCharacteristics(); bool any = a.ca || a.rc || a.ac || a.bc || a.bg; CHECK("characteristics", mk || !any, id << ": no appearance characteristics"); if (mk) { str("caption", mk->GetCaption(), a.ca, id); str("rollover caption", mk->GetRolloverCaption(), a.rc, id); str("alternate caption", mk->GetAlternateCaption(), a.ac, id); col("border color", mk->GetBorderColor(), a.bc, id); col("background color", mk->GetBackgroundColor(), a.bg, id); } }
}
static void check(PdfMemDocument& doc, W& w) {
    auto form = doc.GetAcroForm(); CHECK("form", !w.form || form, "the form is lost"); if (form) { CHECK_EQ("need-appearances", form->GetNeedAppearances(), w.need.value_or(false), "form"); size_t n = 0; for (auto f : *form) { CHECK("fields", n < w.roots.size() && f == &form->GetFieldAt((unsigned)n), "enumeration of the fields, position " << n); n++; } CHECK_EQ("fields", n, w.roots.size(), "fields enumerated"); CHECK_EQ("fields", (size_t)form->GetFieldCount(), w.roots.size(), "fields of the form"); checkTree(doc, w, w.roots, nullptr); }
    for (size_t i = 0; i < w.pages.size(); i++) { auto& page = doc.GetPages().GetPageAt((unsigned)i); auto& c = page.GetAnnotations(); CHECK_EQ("annotations", (size_t)c.GetCount(), w.pages[i].size(), "annotations of page " << i); size_t n = 0; for (auto a : c) { CHECK("annotations", a == &c.GetAnnotAt((unsigned)n), "enumeration of the annotations"); n++; } CHECK_EQ("annotations", n, w.pages[i].size(), "annotations enumerated"); for (size_t k = 0; k < w.pages[i].size(); k++) { auto& a = c.GetAnnotAt((unsigned)k); checkAnnot(a, w, *w.pages[i][k]); CHECK("annotation-page", a.GetPage() == &page, "page of an annotation"); CHECK("annotation-ref", &c.GetAnnot(a.GetObject().GetIndirectReference()) == &a, "annotation by reference"); } }
}
// the file, read by an independent reader
static void checkStrictFields(const Doc& d, W& w, std::vector<std::unique_ptr<F>>& l, const V& arr, const V* parent) {
    CHECK("file-fields", arr.k == K::Arr && arr.a.size() == l.size(), "the file lists " << arr.a.size() << " fields, expected " << l.size());
    for (size_t i = 0; i < l.size(); i++) {
        F& f = *l[i]; std::string id = "field " + show(f) + " in the file"; CHECK("file-fields", arr.a[i].k == K::Ref, id << " is not a reference"); V v = resolve(d, arr.a[i]); auto up = v.get("Parent"); CHECK("file-parent", (up != nullptr) == (parent != nullptr) && (!up || (up->k == K::Ref && up->i == parent->i)), id << ": wrong /Parent");
        auto val_ = [&](const char* k) { auto x = v.get(k); return x ? std::make_unique<V>(resolve(d, *x)) : std::unique_ptr<V>(); }; auto ft = val_("FT"); CHECK("file-type", parent ? !ft || ft->s == FT(f.type) : ft && ft->s == FT(f.type), id << ": wrong /FT"); V ff = v.get("Ff") ? resolve(d, *v.get("Ff")) : V(); CHECK("file-flags", ff.k == K::Int ? f.ff.value_or(0) == ff.i : !f.ff || *f.ff == 0, id << ": flags " << ff.i << " expected " << f.ff.value_or(-1));
        auto t = val_("T"); CHECK("file-name", (t != nullptr) == f.t.has_value() && (!t || textBytes(*f.t) == t->s || bytesText(t->s) == bytesText(textBytes(*f.t))), id << ": /T"); auto kids = v.get("Kids"); if (kids) checkStrictFields(d, w, f.kids, resolve(d, *kids), &arr.a[i]); else CHECK("file-kids", f.kids.empty(), id << " has no /Kids");
        auto val = val_("V"); if (f.type != Sig) { CHECK("file-value", (val != nullptr) == f.v.has_value() && (!val || (f.type == Check ? val->k == K::Name && val->s == *f.v : val->k == K::Str && bytesText(val->s) == bytesText(textBytes(*f.v)))), id << ": /V"); }
    }
}
static void checkFile(const std::string& bytes, W& w, size_t pages) {
    Doc d; try { d = readStrict(bytes).doc; } catch (SyntaxError& e) { pbt::fail("not-conforming", e.msg); }
    V root = resolve(d, *d.trailer.get("Root")); if (w.form) { CHECK("file-form", root.get("AcroForm"), "the catalog has no /AcroForm"); V form = resolve(d, *root.get("AcroForm")); CHECK("file-form", form.get("Fields"), "the form has no /Fields"); checkStrictFields(d, w, w.roots, resolve(d, *form.get("Fields")), nullptr); }
    V tree = resolve(d, *root.get("Pages")); auto kids = resolve(d, *tree.get("Kids")); CHECK_EQ("file-pages", kids.a.size(), pages, "pages"); for (size_t i = 0; i < pages; i++) { V p = resolve(d, kids.a[i]); V arr = p.get("Annots") ? resolve(d, *p.get("Annots")) : V(); CHECK_EQ("file-annots", arr.a.size(), w.pages[i].size(), "annotations of page " << i << " in the file"); for (size_t k = 0; k < arr.a.size(); k++) { V a = resolve(d, arr.a[k]); auto& m = *w.pages[i][k]; std::string id = std::string("annotation ") + NAMES[m.type] + " in the file"; CHECK("file-subtype", a.get("Subtype") && a.get("Subtype")->s == NAMES[m.type], id << ": /Subtype"); CHECK("file-annot-page", a.get("P") && a.get("P")->i == kids.a[i].i, id << ": /P"); V r = a.get("Rect") ? resolve(d, *a.get("Rect")) : V(); CHECK("file-rect", r.k == K::Arr && r.a.size() == 4 && near(std::min(r.a[0].num(), r.a[2].num()), m.r[0]) && near(std::max(r.a[1].num(), r.a[3].num()), m.r[1] + m.r[3]), id << ": /Rect"); } }
}
struct Ops {
    pbt::Src& g; std::unique_ptr<PdfMemDocument>& doc; W& w; std::deque<std::string>& files; unsigned sets = 0; int64_t ids = 0;
    F* anyField() { auto l = flat(w); return l.empty() ? nullptr : g.pick(l); }
    A* anyAnnot() { auto l = annots(w); return l.empty() ? nullptr : g.pick(l); }
    void rect(A& a) { for (int i = 0; i < 4; i++) a.r[i] = (double)(i < 2 ? g.range(-100, 800) : g.range(0, 400)) / 2; }
    PdfRect toRect(const A& a) { return PdfRect(a.r[0], a.r[1], a.r[2], a.r[3]); }
    std::string name() { static const char* n[] = { "a", "b", "name", "other field" }; auto s = g.chance(2, 3) ? std::string(n[g.draw(3)]) : txt(g); s.erase(std::remove(s.begin(), s.end(), '.'), s.end()); return s.empty() ? "x" : s; }
    size_t action() { if (!w.acts.empty() && g.coin()) return g.draw(w.acts.size() - 1); Act a; a.type = g.coin() ? (g.coin() ? (int)PdfActionType::URI : (int)PdfActionType::JavaScript) : 1 + (int)g.draw(18); auto o = std::make_shared<PdfAction>(*doc, (PdfActionType)a.type); if (g.coin()) { a.uri = txt(g); o->SetURI(PdfString(*a.uri)); } if (g.chance(1, 3)) { a.js = txt(g); o->SetScript(PdfString(*a.js)); } w.acts.push_back(a); w.actObjs.resize(w.acts.size()); w.actObjs.back() = o; return w.acts.size() - 1; }
    std::shared_ptr<PdfAction> obj(size_t& i) { if (!w.actObjs[i]) { Act a; a.type = (int)PdfActionType::URI; a.uri = txt(g); auto o = std::make_shared<PdfAction>(*doc, PdfActionType::URI); o->SetURI(PdfString(*a.uri)); w.acts.push_back(a); w.actObjs.push_back(o); i = w.acts.size() - 1; } return w.actObjs[i]; }
    int64_t form() { if (w.forms.empty() || g.coin()) { w.forms.push_back(doc->CreateXObjectForm(PdfRect(0, 0, 10 + (double)g.draw(20), 10))); auto& o = w.forms.back()->GetObject(); o.GetOrCreateStream().SetData(bufferview("q Q", (size_t)3)); o.GetDictionary().AddKey("VfId", ++ids); w.formOf[ids] = w.forms.back().get(); return ids; } auto it = w.formOf.begin(); std::advance(it, g.draw(w.formOf.size() - 1)); return it->first; }
    std::optional<std::string> optTxt() { return g.chance(1, 5) ? std::optional<std::string>() : txt(g); }
    template <class O, class M> void setStr(O& o, void (O::*m)(nullable<const PdfString&>), M& slot) { slot = optTxt(); if (slot) (o.*m)(PdfString(*slot)); else (o.*m)(nullptr); }
    std::vector<double> genColor() { std::vector<double> r((size_t)std::array<int, 3>{ 1, 3, 4 }[g.draw(2)]); for (auto& x : r) x = (double)g.draw(20) / 20; return r; }
    template <class O> void setCol(O& o, void (O::*m)(nullable<const PdfColor&>), std::optional<std::vector<double>>& slot) { if (g.chance(1, 5)) { slot.reset(); (o.*m)(nullptr); } else { slot = genColor(); (o.*m)(color(*slot)); } }
    F& adopt(F* up, int type, std::optional<std::string> n) { auto f = std::make_unique<F>(); f->type = type; f->up = up; f->t = n; if (!up) { if (type == Push) f->ff = 1 << 16; if (type == Radio) f->ff = 1 << 15 | 1 << 14; if (type == Combo) f->ff = 1 << 17; } F& r = *f; if (up) up->hadKids = true; (up ? up->kids : w.roots).push_back(std::move(f)); return r; }
    A& addAnnot(size_t page, int type) { auto a = std::make_unique<A>(); a->type = type; a->page = page; rect(*a); w.pages[page].push_back(std::move(a)); return *w.pages[page].back(); }
    void bind(F& f, A& a) { f.widget = &a; f.wasWidget = true; a.field = &f; a.wasField = true; }
    void createField() {
        int type = 1 + (int)g.draw(6); auto n = name();
        if (g.chance(1, 3)) { w.form = true; auto& p = doc->GetOrCreateAcroForm().CreateField(n, (PdfFieldType)type); (void)p; adopt(nullptr, type, n); g.trace("form field ", n, " type ", type); return; }
        size_t pg = g.draw(w.pages.size() - 1); F* same = nullptr; for (auto& f : w.roots) if (f->t && *f->t == n) { same = f.get(); break; } g.trace("page field ", n, " type ", type, same ? " same name" : "");
        auto& page = doc->GetPages().GetPageAt((unsigned)pg); A tmp; rect(tmp); if (same && g.coin()) type = same->type;
        if (same && same->type != type) { bool threw = false; try { page.CreateField(n, (PdfFieldType)type, toRect(tmp)); } catch (std::exception&) { threw = true; } CHECK("same-name", threw, "a field with the name " << n << " of another one and another type is accepted"); g.label("same name, other type"); return; }
        page.CreateField(n, (PdfFieldType)type, toRect(tmp)); w.form = true; A& a = addAnnot(pg, 20); std::copy(tmp.r, tmp.r + 4, a.r);
        if (!same) { bind(adopt(nullptr, type, n), a); return; }
        g.label("same name"); if (!same->hadKids) { F& par = adopt(nullptr, type, n); par.ff = same->ff; par.v = same->v; par.hadKids = true; size_t i = pos(w, *same); auto own = std::move(w.roots[i]); w.roots.erase(w.roots.begin() + i); own->t.reset(); own->ff.reset(); own->v.reset(); own->up = &par; par.kids.push_back(std::move(own)); same = &par; }
        F& f = adopt(same, type, std::nullopt); bind(f, a);
    }
    void createChild() {
        auto up = anyField(); if (!up || up->wasWidget || up->hadKids != !up->kids.empty() || up->opt.size()) return; auto& c = at(*doc, w, *up).GetChildren(); F* f; bool page = g.coin(); g.trace("child of ", show(*up), page ? " on a page" : "");
        int64_t inhFf = ffOf(*up); if (page) { size_t pg = g.draw(w.pages.size() - 1); A& a = addAnnot(pg, 20); c.CreateChild(doc->GetPages().GetPageAt((unsigned)pg), toRect(a)); f = &adopt(up, up->type, std::nullopt); bind(*f, a); } else { c.CreateChild(); f = &adopt(up, up->type, std::nullopt); } auto& p = at(*doc, w, *f); auto ff = p.GetDictionary().GetKey("Ff"); if (ff) { /* the flags may be written again or inherited */ f->ff = ff->GetNumber(); CHECK_EQ("child-flags", *f->ff, inhFf, "flags of a new child of " << show(*up)); }
        if (g.chance(2, 3)) { auto n = name(); at(*doc, w, *f).SetName(PdfString(n)); f->t = n; }
    }
    void forget(F& f) { if (f.widget) { f.widget->field = nullptr; } for (auto& k : f.kids) forget(*k); }
    void removeField() { auto f = anyField(); if (!f) return; size_t i = pos(w, *f); g.trace("remove field ", show(*f)); auto ref = at(*doc, w, *f).GetObject().GetIndirectReference(); bool byRef = g.coin(); if (f->up) { auto& c = at(*doc, w, *f->up).GetChildren(); if (byRef) c.RemoveField(ref); else c.RemoveFieldAt((unsigned)i); } else if (byRef) doc->GetAcroForm()->RemoveField(ref); else doc->GetAcroForm()->RemoveFieldAt((unsigned)i); forget(*f); auto& l = list(w, *f); w.gone.push_back(std::move(l[i])); l.erase(l.begin() + i); g.label("removed fields"); }
    void field() {
        auto f = anyField(); if (!f) return createField(); auto& p = wrapper(g, *doc, w, *f); sets++; bool term = !f->hadKids; g.trace("set on ", show(*f));
        switch (g.draw(11)) {
            case 0: case 1: { std::vector<const Flag*> l; for (auto& fl : FLAGS) if (fl.types >> f->type & 1) l.push_back(&fl); auto fl = g.pick(l); bool v = g.coin(); fl->set(p, v); int64_t cur = ffOf(*f); if (v != fl->neg) cur |= fl->bit; else cur &= ~fl->bit; f->ff = cur; break; }
            case 2: { if (g.chance(1, 6)) { f->t.reset(); p.SetName(nullptr); } else { auto n = name(); if (g.chance(1, 8)) { bool threw = false; try { p.SetName(PdfString(n + "." + n)); } catch (std::exception&) { threw = true; } CHECK("dotted", threw, "a partial name with a period is accepted"); } else { f->t = n; p.SetName(PdfString(n)); } } break; }
            case 3: setStr(p, &PdfField::SetAlternateName, f->tu); break;
            case 4: setStr(p, &PdfField::SetMappingName, f->tm); break;
            case 5: { int i = (int)g.draw(3); p.SetHighlightingMode(HM[i]); f->h = HS[i]; break; }
            case 6: { size_t i = g.draw(11), a = action(); auto o = obj(a); (p.*AAS[i])(*o); f->aa[AA[i]] = a; break; }
            default:
                if (f->type == Text) { auto& x = static_cast<PdfTextBox&>(p); if (g.chance(1, 4)) { f->maxLen = g.draw(12); x.SetMaxLen(*f->maxLen); break; } bool rich = ffOf(*f) >> 25 & 1; auto& slot = rich ? f->rv : f->v; auto t = optTxt(); auto ml = inh(*f, &F::maxLen); bool fits = !t || !ml || (int64_t)std::count_if(t->begin(), t->end(), [](char c) { return (c & 0xC0) != 0x80; }) <= **ml; bool threw = false; try { if (t) x.SetText(PdfString(*t)); else x.SetText(nullptr); } catch (PdfError&) { threw = true; } CHECK("set-text", threw == !(fits && term), (t ? pbt::show(*t) : std::string("no text")) << (threw ? " refused" : " accepted") << " by field " << show(*f) << (ml ? " of length " + std::to_string(**ml) : "") << (term ? "" : " with children")); if (!threw) slot = t; }
                else if (f->type == Check) { bool v = g.coin(); if (!term) break; static_cast<PdfCheckBox&>(p).SetChecked(v); f->v = v ? "Yes" : "Off"; if (f->widget) f->widget->as = f->v; }
                else if (f->type == Combo || f->type == List) { auto& x = static_cast<PdChoiceField&>(p); unsigned k = (unsigned)g.draw(4); if (!term) break; if (k <= 1 || f->opt.empty()) { auto v = txt(g); std::optional<std::string> d; if (g.coin()) d = txt(g); if (d) x.InsertItem(PdfString(v), PdfString(*d)); else x.InsertItem(PdfString(v)); f->opt.push_back({ v, d }); } else if (k == 2) { size_t i = g.draw(f->opt.size() - 1); x.RemoveItem((unsigned)i); f->opt.erase(f->opt.begin() + i); } else { size_t i = g.draw(f->opt.size() - 1); x.SetSelectedIndex((int)i); f->v = f->opt[i].first; } }
                break;
        }
    }
    void createAnnot() { size_t pg = g.draw(w.pages.size() - 1); int type = 1 + (int)g.draw(28); A& a = addAnnot(pg, type); g.trace("annotation ", NAMES[type]); auto& c = doc->GetPages().GetPageAt((unsigned)pg).GetAnnotations(); c.CreateAnnot((PdfAnnotationType)type, toRect(a)); }
    void removeAnnot() { auto a = anyAnnot(); if (!a) return; auto& l = w.pages[a->page]; size_t i = 0; while (l[i].get() != a) i++; g.trace("remove annotation ", NAMES[a->type], " ", i); auto& c = doc->GetPages().GetPageAt((unsigned)a->page).GetAnnotations(); if (g.coin()) c.RemoveAnnotAt((unsigned)i); else c.RemoveAnnot(c.GetAnnotAt((unsigned)i).GetObject().GetIndirectReference()); if (a->field) a->field->widget = nullptr; w.goneA.push_back(std::move(l[i])); l.erase(l.begin() + i); g.label("removed annotations"); }
    void annot() {
        auto a = anyAnnot(); if (!a) return createAnnot(); auto& p = at(*doc, w, *a); sets++; g.trace("set on annotation ", NAMES[a->type]);
        switch (g.draw(9)) {
            case 0: rect(*a); p.SetRect(toRect(*a)); break;
            case 1: a->flags = (uint32_t)g.draw(0x3FF); p.SetFlags((PdfAnnotationFlags)a->flags); break;
            case 2: { std::vector<double> b{ (double)g.draw(20) / 2, (double)g.draw(20) / 2, (double)g.draw(20) / 2 }; PdfArray dash; for (unsigned i = 0, n = (unsigned)g.draw(2); i < n; i++) { b.push_back((double)g.draw(10)); dash.Add(PdfObject(b.back())); } if (dash.size() || g.coin()) p.SetBorderStyle(b[0], b[1], b[2], dash); else p.SetBorderStyle(b[0], b[1], b[2]); a->border = b; break; }
            case 3: if (a->type != 20) setStr(p, &PdfAnnotation::SetTitle, a->title); break;
            case 4: setStr(p, &PdfAnnotation::SetContents, a->contents); break;
            case 5: setCol(p, &PdfAnnotation::SetColor, a->color); break;
            case 6: { std::string k = g.pick<const char*>({ "N", "R", "D" }); auto t = k == "N" ? PdfAppearanceType::Normal : k == "D" ? PdfAppearanceType::Down : PdfAppearanceType::Rollover; int64_t id = form(); if (g.coin()) { p.SetAppearanceStream(*w.formOf[id], t); a->ap[k] = id; for (auto it = a->aps.begin(); it != a->aps.end();) it = it->first.first == k ? a->aps.erase(it) : std::next(it); } else if (a->field && a->field->type == Check && g.coin()) { auto& cb = static_cast<PdfCheckBox&>(static_cast<PdfAnnotationWidget&>(p).GetField()); bool on = g.coin(); if (on) cb.SetAppearanceChecked(*w.formOf[id]); else cb.SetAppearanceUnchecked(*w.formOf[id]); a->ap.erase("N"); a->aps[{ "N", on ? "Yes" : "Off" }] = id; } else { std::string s = g.pick<const char*>({ "Yes", "Off", "state one" }); p.SetAppearanceStream(*w.formOf[id], t, s); a->ap.erase(k); a->aps[{ k, s }] = id; if (!a->as) a->as = s; } break; }
            case 7: if (a->type == 20 || a->type == 2 || a->type == 21) { if (a->type == 2 && !a->act && g.coin()) { a->dest = g.draw(w.pages.size() - 1); static_cast<PdfAnnotationLink&>(p).SetDestination(std::make_shared<PdfDestination>(doc->GetPages().GetPageAt((unsigned)*a->dest))); break; } if (a->dest) break; size_t i = action(); auto o = obj(i); static_cast<PdfAnnotationActionBase&>(p).SetAction(o); a->act = i; break; } [[fallthrough]];
            default:
                if (a->type == 1 || a->type == 16) { std::optional<bool> v; if (!g.chance(1, 5)) v = g.coin(); a->open = v; nullable<bool> nv; if (v) nv = *v; if (a->type == 1) static_cast<PdfAnnotationText&>(p).SetOpen(nv); else static_cast<PdfAnnotationPopup&>(p).SetOpen(nv); }
                else if (a->type == 17) { std::string n = name() + ".txt"; std::replace(n.begin(), n.end(), '/', '_'); auto fs = std::make_shared<PdfFileSpec>(*doc, n, "data", (size_t)4); static_cast<PdfAnnotationFileAttachement&>(p).SetFileAttachement(fs); a->file = n; }
                else if (a->type == 2 || (a->type >= 9 && a->type <= 12) || a->type == 28) { PdfArray q; std::vector<double> v; for (unsigned i = 0, n = 8 * (unsigned)g.draw(2); i < n; i++) { v.push_back((double)g.range(-50, 500) / 2); q.Add(PdfObject(v.back())); } bool none = g.chance(1, 5); if (none) a->quad.reset(); else a->quad = v; auto set = [&](auto& x) { if (none) x.SetQuadPoints(nullptr); else x.SetQuadPoints(q); }; if (a->type == 2) set(static_cast<PdfAnnotationLink&>(p)); else if (a->type == 28) set(static_cast<PdfAnnotationRedact&>(p)); else set(static_cast<PdfAnnotationTextMarkupBase&>(p)); }
                else if (a->type == 20 || a->type == 21) { auto& mk = a->type == 20 ? static_cast<PdfAnnotationWidget&>(p).GetOrCreateAppearanceCharacteristics() : static_cast<PdfAnnotationScreen&>(p).GetOrCreateAppearanceCharacteristics(); bool viaField = a->field && a->field->type == Push && g.coin(); auto fp = viaField ? &static_cast<PdfPushButton&>(static_cast<PdfAnnotationWidget&>(p).GetField()) : nullptr; switch (g.draw(4)) { case 0: if (fp) setStr<PdfButton>(*fp, &PdfButton::SetCaption, a->ca); else setStr(mk, &PdfAppearanceCharacteristics::SetCaption, a->ca); break; case 1: if (fp) setStr(*fp, &PdfPushButton::SetRolloverCaption, a->rc); else setStr(mk, &PdfAppearanceCharacteristics::SetRolloverCaption, a->rc); break; case 2: if (fp) setStr(*fp, &PdfPushButton::SetAlternateCaption, a->ac); else setStr(mk, &PdfAppearanceCharacteristics::SetAlternateCaption, a->ac); break; case 3: setCol(mk, &PdfAppearanceCharacteristics::SetBorderColor, a->bc); break; default: setCol(mk, &PdfAppearanceCharacteristics::SetBackgroundColor, a->bg); } }
        }
    }
    void changeAction() { std::vector<size_t> l; for (size_t i = 0; i < w.actObjs.size(); i++) if (w.actObjs[i]) l.push_back(i); if (l.empty()) return; size_t i = g.pick(l); g.trace("change an action"); if (g.coin()) { w.acts[i].uri = txt(g); w.actObjs[i]->SetURI(PdfString(*w.acts[i].uri)); } else { w.acts[i].js = txt(g); w.actObjs[i]->SetScript(PdfString(*w.acts[i].js)); } }
    void reload(std::string& base) { bool upd = !base.empty() && g.coin(); g.trace(upd ? "update" : "save", " and load"); w.forms.clear(); w.formOf.clear(); for (auto& a : w.actObjs) a.reset(); std::string out; if (upd) { out = base; StringStreamDevice dev(out); doc->SaveUpdate(dev, PdfSaveOptions::NoModifyDateUpdate); } else out = save(*doc, genSave(g)); checkFile(out, w, w.pages.size()); base = out; doc.reset(); files.push_back(out); doc = loadMm(files.back(), (unsigned)g.draw(2)); check(*doc, w); g.label(upd ? "updated and reloaded" : "saved and reloaded"); }
};
static const char* ACTS[] = { "NoSuchAction", "GoTo", "GoToR", "GoToE", "Launch", "Thread", "URI", "Sound", "Movie", "Hide", "Named", "SubmitForm", "ResetForm", "ImportData", "JavaScript", "SetOCGState", "Rendition", "Trans", "GoTo3DView", "RichMediaExecute" };
// a form written by another producer
struct Gen { pbt::Src& g; W& w; M m; int64_t next = 1, ids = 100000; std::vector<int64_t> pages; std::vector<std::vector<V>> annots;
    V ind(V v, unsigned den) { if (!g.chance(1, den)) return v; int64_t n = next++; m.d.objs[n].v = v; return V::refTo(n); }
    V str(const std::string& t, unsigned den = 12) { return ind(V::str(textBytes(t), g.coin()), den); }
    V action(size_t& i) { Act a; a.type = g.coin() ? 6 : (int)g.draw(19); V d = V::dict({ { "S", ind(V::name(ACTS[a.type]), 12) } }); if (g.coin()) d.m["Type"] = V::name("Action"); if (g.coin()) { a.uri = txt(g); d.m["URI"] = str(*a.uri); } if (g.chance(1, 3)) { a.js = txt(g); d.m["JS"] = str(*a.js); } w.acts.push_back(a); w.actObjs.resize(w.acts.size()); i = w.acts.size() - 1; return ind(d, 2); }
    std::optional<std::vector<double>> color(V& d, const char* key, unsigned den) { if (!g.chance(1, den)) return {}; std::vector<double> r((size_t)std::array<int, 3>{ 1, 3, 4 }[g.draw(2)]); std::vector<V> a; for (auto& x : r) { x = (double)g.draw(4) / 4; a.push_back(x == std::floor(x) && g.coin() ? V::integer((int64_t)x) : V::real(x)); } d.m[key] = ind(V::arr(a), 8); return r; }
    V form(int64_t& id) { id = ++ids; int64_t n = next++; m.d.objs[n].v = V::dict({ { "Type", V::name("XObject") }, { "Subtype", V::name("Form") }, { "BBox", V::arr({ V::integer(0), V::integer(0), V::integer(9), V::integer(9) }) }, { "VfId", V::integer(id) } }); setStream(g, m, n, "q Q", false); m.d.objs[n].v.m["VfId"] = V::integer(id); return V::refTo(n); }
    void annot(A& a, V& d, int64_t me) {
        a.flags = (uint32_t)g.draw(0x3FF); if (g.chance(1, 5)) a.flags = 0; else d.m["F"] = ind(V::integer(a.flags), 12); for (int i = 0; i < 4; i++) a.r[i] = (double)(i < 2 ? g.range(-100, 800) : g.range(0, 400)) / 2; auto n = [&](double x) { return x == std::floor(x) && g.coin() ? V::integer((int64_t)x) : V::real(x); }; V x0 = n(a.r[0]), y0 = n(a.r[1]), x1 = n(a.r[0] + a.r[2]), y1 = n(a.r[1] + a.r[3]); if (g.chance(1, 6)) std::swap(x0, x1); if (g.chance(1, 6)) std::swap(y0, y1);
        d.m["Rect"] = ind(V::arr({ x0, y0, x1, y1 }), 8); d.m["Subtype"] = V::name(NAMES[a.type]); if (g.coin()) d.m["Type"] = V::name("Annot"); d.m["P"] = V::refTo(pages[a.page]); annots[a.page].push_back(V::refTo(me)); auto opt = [&](const char* k, std::optional<std::string>& s, V& in, unsigned den) { if (g.chance(1, den)) { s = txt(g); in.m[k] = str(*s); } };
        if (a.type != 20) opt("T", a.title, d, 3); opt("Contents", a.contents, d, 3); a.color = color(d, "C", 4); if (g.chance(1, 5)) { a.border = std::vector<double>{ (double)g.draw(9), (double)g.draw(9), (double)g.draw(9) }; std::vector<V> b; for (auto x : *a.border) b.push_back(V::integer((int64_t)x)); if (g.coin()) { a.border->push_back(3); b.push_back(V::arr({ V::integer(3) })); } d.m["Border"] = ind(V::arr(b), 8); }
        if (g.chance(1, 3)) { V ap = V::dict(); for (auto k : { "N", "R", "D" }) if (g.coin()) { if (g.coin()) ap.m[k] = form(a.ap[k]); else { V st = V::dict(); for (auto s : { "Yes", "Off", "state one" }) if (g.coin()) st.m[s] = form(a.aps[{ k, s }]); ap.m[k] = ind(st, 4); } } d.m["AP"] = ind(ap, 3); }
        if ((a.type == 2 || a.type == 21 || a.type == 20) && g.chance(1, 3)) { size_t i; d.m["A"] = action(i); a.act = i; } else if (a.type == 2 && g.coin()) { a.dest = g.draw(pages.size() - 1); d.m["Dest"] = ind(V::arr({ V::refTo(pages[*a.dest]), V::name("Fit") }), 3); }
        if ((a.type == 1 || a.type == 16) && g.coin()) { a.open = g.coin(); d.m["Open"] = V::boolean(*a.open); } if ((a.type == 2 || (a.type >= 9 && a.type <= 12) || a.type == 28) && g.coin()) { a.quad = std::vector<double>(); std::vector<V> q; for (int i = 0; i < 8; i++) { a.quad->push_back((double)g.range(-50, 500)); q.push_back(V::integer((int64_t)a.quad->back())); } d.m["QuadPoints"] = ind(V::arr(q), 6); }
        if (a.type == 17 && g.coin()) { a.file = txt(g); V fs = V::dict({ { "Type", V::name("Filespec") } }); bool both = g.coin(); fs.m[both || g.coin() ? "UF" : "F"] = str(*a.file); if (both) fs.m["F"] = V::str("other"); d.m["FS"] = ind(fs, 2); }
        if ((a.type == 20 || a.type == 21) && g.chance(1, 3)) { V mk = V::dict(); opt("CA", a.ca, mk, 2); opt("RC", a.rc, mk, 2); opt("AC", a.ac, mk, 2); a.bc = color(mk, "BC", 2); a.bg = color(mk, "BG", 2); d.m["MK"] = ind(mk, 2); }
    }
    V field(F& f, int64_t up, unsigned depth, unsigned& budget, int64_t inhFf) {
        int64_t me = next++; V d = V::dict(); if (up) d.m["Parent"] = V::refTo(up); if (!up || g.chance(1, 4)) d.m["FT"] = ind(V::name(FT(f.type)), 12); int64_t need = f.type == Push ? 1 << 16 : f.type == Radio ? 1 << 15 : f.type == Combo ? 1 << 17 : 0, other = f.type == Push ? 1 << 15 : 0; int64_t ff = inhFf;
        if ((!up && need) || g.chance(1, 3)) { ff = (int64_t)g.draw(0x7FFFFFF) & ~(int64_t)(1 << 15 | 1 << 16 | 1 << 17 | other); if (f.type == Push && g.chance(1, 9)) ff |= 0; ff |= need; f.ff = ff; d.m["Ff"] = ind(V::integer(ff), 12); } auto opt = [&](const char* k, std::optional<std::string>& s, unsigned num, unsigned den) { if (g.chance(num, den)) { s = txt(g); s->erase(std::remove(s->begin(), s->end(), '.'), s->end()); if (s->empty()) *s = "y"; d.m[k] = str(*s); } };
        opt("T", f.t, up ? 2 : 7, up ? 3 : 8); opt("TU", f.tu, 1, 4); opt("TM", f.tm, 1, 4); bool kids = depth < 4 && g.chance(1, 2) && budget; if (f.type == Text) { opt("V", f.v, 1, 2); opt("RV", f.rv, 1, 3); if (g.chance(1, 3)) { f.maxLen = g.draw(20); d.m["MaxLen"] = ind(V::integer(*f.maxLen), 12); } }
        if (f.type == Check && !kids && g.coin()) { f.v = g.coin() ? "Yes" : "Off"; d.m["V"] = ind(V::name(*f.v), 12); } if ((f.type == Combo || f.type == List) && (!kids || g.coin())) { std::vector<V> l; for (unsigned i = 0, n = (unsigned)g.draw(4); i < n; i++) { auto v = txt(g); std::optional<std::string> t; if (g.coin()) t = txt(g); f.opt.push_back({ v, t }); l.push_back(t ? ind(V::arr({ str(v), str(*t) }), 6) : str(v)); } if (!l.empty() || g.coin()) d.m["Opt"] = ind(V::arr(l), 6); if (!kids && g.coin()) { f.v = f.opt.empty() || g.chance(1, 5) ? txt(g) : g.pick(f.opt).first; d.m["V"] = str(*f.v); } }
        if (g.chance(1, 4)) { int i = (int)g.draw(3); f.h = HS[i]; d.m["H"] = V::name(*f.h); } if (g.chance(1, 4)) { V aa = V::dict(); for (auto k : AA) if (g.chance(1, 4)) { size_t i; aa.m[k] = action(i); f.aa[k] = i; } d.m["AA"] = ind(aa, 3); }
        if (kids) { std::vector<V> l; f.hadKids = true; for (unsigned i = 0, n = 1 + g.size(3); i < n && budget; i++) { budget--; auto k = std::make_unique<F>(); k->type = f.type; k->up = &f; f.kids.push_back(std::move(k)); l.push_back(field(*f.kids.back(), me, depth + 1, budget, ff)); } d.m["Kids"] = ind(V::arr(l), 6); }
        else if (g.chance(3, 4)) { auto a = std::make_unique<A>(); a->type = 20; a->page = g.draw(pages.size() - 1); f.widget = a.get(); f.wasWidget = true; a->field = &f; annot(*a, d, me); if (f.type == Check && g.coin()) { a->as = f.v.value_or(g.coin() ? "Yes" : "Off"); d.m["AS"] = V::name(*a->as); } w.pages[a->page].push_back(std::move(a)); } m.d.objs[me].v = d; return V::refTo(me);
    }
    std::string run() {
        int64_t cat = next++, tree = next++; unsigned np = 1 + (unsigned)g.draw(2); std::vector<V> kids; for (unsigned i = 0; i < np; i++) { pages.push_back(next++); kids.push_back(V::refTo(pages.back())); w.pages.emplace_back(); annots.emplace_back(); }
        V c = V::dict({ { "Type", V::name("Catalog") }, { "Pages", V::refTo(tree) } }); unsigned budget = g.size(12), top = g.size(5);
        for (unsigned i = 0, n = g.size(4); i < n; i++) { auto a = std::make_unique<A>(); a->type = 1 + (int)g.draw(28); if (a->type == 20) a->type = 2; a->page = g.draw(np - 1); int64_t me = next++; V d = V::dict(); annot(*a, d, me); m.d.objs[me].v = d; w.pages[a->page].push_back(std::move(a)); }
        if (top || g.coin()) { std::vector<V> l; for (unsigned i = 0; i < top; i++) { auto f = std::make_unique<F>(); f->type = 1 + (int)g.draw(6); w.roots.push_back(std::move(f)); l.push_back(field(*w.roots.back(), 0, 1, budget, 0)); } V form = V::dict({ { "Fields", ind(V::arr(l), 4) } }); if (g.chance(1, 3)) { w.need = g.coin(); form.m["NeedAppearances"] = ind(V::boolean(*w.need), 8); } c.m["AcroForm"] = ind(form, 2); w.form = true; }
        for (unsigned i = 0; i < np; i++) { V p = V::dict({ { "Type", V::name("Page") }, { "Parent", V::refTo(tree) }, { "MediaBox", V::arr({ V::integer(0), V::integer(0), V::integer(100), V::integer(100) }) } }); if (!annots[i].empty() || g.coin()) p.m["Annots"] = ind(V::arr(annots[i]), 4); m.d.objs[pages[i]].v = p; } m.d.objs[tree].v = V::dict({ { "Type", V::name("Pages") }, { "Kids", V::arr(kids) }, { "Count", V::integer(np) } }); m.d.objs[cat].v = c; m.d.trailer = V::dict({ { "Root", V::refTo(cat) } }); m.d.version = "1.7"; Layout l; l.xref = (int)g.draw(2); l.objStreams = l.xref && g.coin(); return write(g, m, l, g.coin());
    }
};
static void run(pbt::Src& g, unsigned fieldW, unsigned annotW, bool loaded = false) {
    std::deque<std::string> files; auto doc = std::make_unique<PdfMemDocument>(); W w; std::string base; unsigned np = 1 + (unsigned)g.draw(2); if (loaded) { Gen x{ g, w }; base = x.run(); g.trace(refdoc::str(x.m)); files.push_back(base); doc = loadMm(files.back(), (unsigned)g.draw(2)); check(*doc, w); } else for (unsigned i = 0; i < np; i++) { doc->GetPages().CreatePage(PdfRect(0, 0, 400, 600)); w.pages.emplace_back(); } Ops o{ g, doc, w, files };
    for (unsigned i = 0, n = loaded ? g.size(14) : 4 + g.size(30); i < n; i++) {
        switch (g.weighted({ fieldW * 2, fieldW, fieldW * 4, (fieldW + 1) / 2, annotW * 2, annotW * 5, annotW, 1, 1, 1 })) { case 0: o.createField(); break; case 1: o.createChild(); break; case 2: o.field(); break; case 3: o.removeField(); break; case 4: o.createAnnot(); break; case 5: o.annot(); break; case 6: o.removeAnnot(); break; case 7: o.changeAction(); break; case 8: if (doc->GetAcroForm()) { w.need = g.coin(); doc->GetAcroForm()->SetNeedAppearances(*w.need); } break; default: o.reload(base); }
        if (g.chance(1, 4)) check(*doc, w);
    }
    check(*doc, w); o.reload(base); if ((flat(w).size() >= 2 && o.sets >= 2) || annots(w).size() >= 3) g.nontrivial();
}
PROP(C19, fields, 3000, 90000, 20) { run(g, 3, 1); }
PROP(C19, annotations, 3000, 90000, 20) { run(g, 1, 4); }
PROP(C19, loaded, 3000, 90000, 20) { run(g, 2, 2, true); }
PROP(C19, attachments, 2500, 60000, 20) {
    auto doc = std::make_unique<PdfMemDocument>(); std::deque<std::string> files; doc->GetPages().CreatePage(PdfRect(0, 0, 10, 10)); struct At { std::string full, uf, data; }; std::map<std::string, At> all; std::string base;
    auto check = [&] { for (auto& a : all) { std::unique_ptr<PdfFileSpec> fs(doc->GetAttachment(PdfString(a.first))); CHECK("attachment", fs != nullptr, "attachment " << pbt::show(a.first) << " is not found"); std::string f = fs->GetFilename(false).GetString(), uf = fs->GetFilename(true).GetString(); CHECK_EQ("attachment-name", f, a.first, "file name"); CHECK_EQ("attachment-name", uf, a.second.uf, "unicode file name of " << pbt::show(a.second.full)); auto ef = fs->GetDictionary().FindKey("EF"); CHECK("attachment-data", ef && ef->GetDictionary().FindKey("F"), "no embedded file"); auto& st = *ef->GetDictionary().FindKey("F"); CHECK("attachment-data", streamData(st) == a.second.data, "data of " << pbt::show(a.first)); auto par = st.GetDictionary().FindKey("Params"); CHECK("attachment-size", par && par->GetDictionary().FindKey("Size") && par->GetDictionary().FindKey("Size")->GetNumber() == (int64_t)a.second.data.size(), "size of " << pbt::show(a.first)); } std::unique_ptr<PdfFileSpec> none(doc->GetAttachment(PdfString("no such file"))); CHECK("attachment", !none, "a file that was not attached is found"); };
    for (unsigned i = 0, n = 1 + g.size(8); i < n; i++) {
        if (i && g.chance(1, 5)) { std::string out; bool upd = !base.empty() && g.coin(); if (upd) { out = base; StringStreamDevice dev(out); doc->SaveUpdate(dev, PdfSaveOptions::NoModifyDateUpdate); } else out = save(*doc, genSave(g)); base = out; doc.reset(); files.push_back(out); doc = loadMm(files.back(), (unsigned)g.draw(2)); check(); g.label("reloaded"); continue; }
        At a; std::string leaf = g.coin() ? "file" + std::to_string(i) + ".txt" : txt(g); for (auto& c : leaf) if (c == '/' || c == '\\' || c == ':' || !c) c = '-'; std::string dir; for (unsigned k = 0, m = (unsigned)g.draw(2); k < m; k++) dir += g.pick<const char*>({ "dir/", "with space/", "d.1/", "/", "../" }); a.full = dir + leaf; a.uf = leaf; a.data = genData(g); bool strip = g.coin(); std::string key = strip ? leaf : a.full; std::unique_ptr<PdfFileSpec> fs;
        if (g.chance(1, 4) && leaf.size() < 100) { std::string path = scratch("a" + std::to_string(i) + ".bin"); spit(path, a.data); a.full = path; a.uf = path.substr(path.rfind('/') + 1); key = strip ? a.uf : path; fs.reset(new PdfFileSpec(*doc, path, true, strip)); ::unlink(path.c_str()); g.label("from a file"); } else fs.reset(new PdfFileSpec(*doc, a.full, a.data.data(), a.data.size(), strip));
        std::string f = fs->GetFilename(false).GetString(); CHECK_EQ("attachment-name", f, key, "file name of " << pbt::show(a.full)); doc->AttachFile(*fs); g.trace("attach ", pbt::show(key), " ", a.data.size(), " bytes"); all[key] = a; g.nontrivial();
    }
    check(); std::string out = save(*doc, genSave(g)); doc.reset(); files.push_back(out); doc = loadMm(files.back(), 0); check();
}
