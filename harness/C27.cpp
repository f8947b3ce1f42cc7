// C27: signatures cover the whole file but themselves.
#include "refgraph.h"
#include "refrich.h"
#include <unistd.h>
#include <sstream>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the document is signed several times, was encrypted, comes from another producer, or the signature ends at a boundary of the reading buffer";
    pbt::g_assumptions = "the device already holds the file that the document was loaded from\nthe signer is a stand-in that records what it is asked to sign: no cryptography is involved";
} } init;
struct Sg : PdfSigner {
    std::string data, log, sig, filter, sub, type; size_t dry = 0, chunks = 0;
    void Reset() override { log += 'R'; data.clear(); }
    void AppendData(const bufferview& d) override { if (log.empty() || log.back() != 'A') log += 'A'; chunks++; CHECK("empty-chunk", d.size() != 0, "the signer was given an empty piece"); data.append(d.data(), d.size()); }
    void ComputeSignature(charbuff& b, bool dryrun) override { log += dryrun ? 'D' : 'C'; if (dryrun) { b.resize(dry); std::fill(b.begin(), b.end(), '\x55'); } else { b.resize(sig.size()); std::copy(sig.begin(), sig.end(), b.begin()); } }
    std::string GetSignatureFilter() const override { return filter.empty() ? PdfSigner::GetSignatureFilter() : filter; }
    std::string GetSignatureSubFilter() const override { return sub; }
    std::string GetSignatureType() const override { return type; }
};
struct Info { std::optional<std::string> name, reason, location, creator; std::optional<PdfDate> date; int cert = 0; };
struct Done { std::string field, sig; Info info; size_t a, b, end; std::string signedData; std::string filter, sub, type; };
static std::string txt(const nullable<const PdfString&>& s) { return s.has_value() ? "=" + s->GetString() : "(none)"; }
static std::string txt(const std::optional<std::string>& s) { return s ? "=" + *s : "(none)"; }
static void setInfo(pbt::Src& g, PdfSignature& s, Info& i) {
    auto t = [&](std::optional<std::string>& v, auto fn) { switch (g.draw(3)) { case 0: break; case 1: v.reset(); fn(nullptr); break; default: { v = utf8(genText(g, 10, (int)g.draw(3))); PdfString ps(*v); fn(&ps); } } };
    auto arg = [](const PdfString* p) { return p ? nullable<const PdfString&>(*p) : nullable<const PdfString&>(); };
    t(i.name, [&](const PdfString* p) { s.SetSignerName(arg(p)); }); t(i.reason, [&](const PdfString* p) { s.SetSignatureReason(arg(p)); }); t(i.location, [&](const PdfString* p) { s.SetSignatureLocation(arg(p)); }); t(i.creator, [&](const PdfString* p) { s.SetSignatureCreator(arg(p)); });
    if (g.coin()) { i.date = PdfDate(std::chrono::seconds((int64_t)g.draw(4000000000u)), g.coin() ? nullable<std::chrono::minutes>(std::chrono::minutes((int)g.range(0, 1400) - 700)) : nullable<std::chrono::minutes>()); nullable<PdfDate> d = *i.date; s.SetSignatureDate(nullable<const PdfDate&>(*i.date)); if (g.chance(1, 5)) { s.SetSignatureDate(nullptr); i.date.reset(); } }
    if (g.chance(1, 4)) { i.cert = (int)g.range(1, 3); s.AddCertificationReference((PdfCertPermission)i.cert); }
}
static void checkInfo(const PdfSignature& s, const Info& i, const char* when) {
    CHECK_EQ("name", txt(s.GetSignerName()), txt(i.name), "the signer " << when); CHECK_EQ("reason", txt(s.GetSignatureReason()), txt(i.reason), "the reason " << when); CHECK_EQ("location", txt(s.GetSignatureLocation()), txt(i.location), "the location " << when);
    auto d = s.GetSignatureDate(); CHECK("date", d.has_value() == i.date.has_value() && (!i.date || *d == *i.date), "the date " << when << (d.has_value() ? " is " + d->ToString().GetString() : " is missing"));
}
static PdfSignature* find(PdfMemDocument& doc, const std::string& name) { auto f = doc.GetAcroForm(); if (!f) return nullptr; for (unsigned i = 0; i < f->GetFieldCount(); i++) { auto& x = f->GetFieldAt(i); if (x.GetType() == PdfFieldType::Signature && x.GetFullName() == name) return dynamic_cast<PdfSignature*>(&x); } return nullptr; }
static const V* at(const Doc& d, const V* v) { return v ? &resolve(d, *v) : nullptr; }
// the signature as another reader finds it in the file
static void checkFile(const std::string& out, const Doc& d, int64_t field, const Done& s, bool enc, bool newest) {
    auto& f = d.objs.at(field).v; const V* vr = f.get("V"); CHECK("value", vr && vr->k == K::Ref, "the field has no signature"); const V* v = at(d, vr); CHECK("value", v->k == K::Dict, "the signature is no dictionary");
    auto name = [&](const char* k, const std::string& w) { auto x = at(d, v->get(k)); CHECK("dictionary", x && x->k == K::Name && x->s == w, "/" << k << " of the signature is not " << w); }; name("Filter", s.filter); name("SubFilter", s.sub); name("Type", s.type);
    auto c = v->get("Contents"); CHECK("contents", c && c->k == K::Str && c->s == s.sig, "the signature in the file is " << (c ? ref::show(*c) : "missing") << " instead of " << pbt::show(s.sig));
    auto br = v->get("ByteRange"); CHECK("range", br && br->k == K::Arr && br->a.size() == 4, "no byte range"); int64_t n[4]; for (int i = 0; i < 4; i++) { CHECK("range", br->a[i].k == K::Int, "byte range"); n[i] = br->a[i].i; }
    CHECK("range-start", n[0] == 0, "the byte range starts at " << n[0]); CHECK("range-end", n[2] + n[3] == (int64_t)s.end, "the byte range ends at " << n[2] + n[3] << " instead of " << s.end); CHECK("range-hole", n[1] > 0 && n[1] < n[2] && (size_t)n[2] <= s.end && out[n[1]] == '<' && out[n[2] - 1] == '>', "what is left out by the byte range is not a string"); CHECK_EQ("range-size", n[2] - n[1], (int64_t)s.sig.size() * 2 + 2, "length left out");
    CHECK("range-contents", hexDecode(std::string(out, n[1] + 1, n[2] - n[1] - 2) + ">") == s.sig, "what is left out is not the signature"); CHECK("covered", out.substr(0, n[1]) + out.substr(n[2], s.end - n[2]) == s.signedData, "the signed data are not those of the byte range");
    auto str = [&](const char* k, const std::optional<std::string>& w) { if (enc) return; auto x = at(d, v->get(k)); CHECK("entry", w ? x && x->k == K::Str && bytesText(x->s) == *w : !x, "/" << k << " of the signature" << (w ? " is not " + *w : " should be missing")); };
    str("Name", s.info.name); str("Reason", s.info.reason); str("Location", s.info.location); if (!enc) { auto pb = at(d, v->get("Prop_Build")); auto app = pb ? at(d, pb->get("App")) : nullptr; auto nm = app ? at(d, app->get("Name")) : nullptr; CHECK("entry", s.info.creator ? nm && bytesText(nm->s) == *s.info.creator : !nm, "creator of the signature"); }
    auto m = at(d, v->get("M")); CHECK("entry", s.info.date ? !!m : !m, "/M of the signature"); if (!enc && m) CHECK_EQ("entry", m->s, std::string(s.info.date->ToString().GetString()), "/M of the signature");
    auto root = at(d, d.trailer.get("Root")); auto form = at(d, root->get("AcroForm")); CHECK("form", form && form->k == K::Dict, "no form"); auto fl = at(d, form->get("SigFlags")); CHECK("flags", fl && fl->i == 3, "signature flags of the form"); CHECK("appearances", !form->get("NeedAppearances"), "the form still has /NeedAppearances");
    auto fs = at(d, form->get("Fields")); bool in = false; if (fs) for (auto& x : fs->a) in |= x.k == K::Ref && x.i == field; CHECK("field", in, "the field is not in the form"); auto ft = at(d, f.get("FT")); CHECK("field-type", ft && ft->s == "Sig", "type of the field");
    if (s.info.cert) { auto rf = at(d, v->get("Reference")); CHECK("certification", rf && rf->k == K::Arr && rf->a.size() == 1, "reference of the signature"); auto r0 = at(d, &rf->a[0]); auto tm = at(d, r0->get("TransformMethod")); auto tp = at(d, r0->get("TransformParams")); CHECK("certification", tm && tm->s == "DocMDP" && tp && at(d, tp->get("P")) && at(d, tp->get("P"))->i == s.info.cert, "certification"); if (newest) { auto pm = at(d, root->get("Perms")); auto md = pm ? pm->get("DocMDP") : nullptr; CHECK("certification", md && md->k == K::Ref && md->i == vr->i, "/Perms does not refer to the signature"); } }
}
PROP(C27, signing, 2600, 60000, 60) {
    bool enc = false, foreign = g.chance(1, 3); std::deque<std::string> files; std::string pw;
    if (g.chance(1, 25)) { // a document without a file
        PdfMemDocument d; refrich::Opt ro; ro.fonts = false; refrich::enrich(g, d, g.size(3), ro); auto& f = d.GetPages().GetPageAt(0).CreateField<PdfSignature>("s", PdfRect(0, 0, 5, 5)); Sg s; s.sub = "x"; s.type = "Sig"; std::string out; StringStreamDevice dev(out); bool thrown = false; try { SignDocument(d, dev, s, f); } catch (PdfError& e) { thrown = true; CHECK("new-error", e.GetError() == PdfErrorCode::NotLoadedForUpdate, "signing a document that was not loaded: " << e.what()); } CHECK("new", thrown && out.empty(), "a part of a document without a file was written"); g.label("not loaded"); return;
    }
    std::string first; std::shared_ptr<M> m; PdfSaveOptions so = genSave(g) | PdfSaveOptions::NoModifyDateUpdate;
    if (foreign) { refdoc::Opt o; o.extra = 2 + g.size(6); o.pages = 2; o.gens = g.chance(1, 4); o.sparse = g.chance(1, 3); m = std::make_shared<M>(gen(g, o)); first = history(g, *m, o, 1 + (unsigned)g.draw(2), g.chance(1, 3)).bytes; g.label("of another producer"); g.nontrivial(); }
    else { PdfMemDocument d; refrich::Opt ro; ro.fonts = g.chance(1, 12); refrich::enrich(g, d, g.size(6), ro); if (g.chance(1, 3)) { auto& st = d.GetObjects().CreateDictionaryObject(); std::string big = std::string(65000 + g.draw(70000), 'p'); st.GetOrCreateStream().SetData(bufferview(big.data(), big.size()), PdfFilterList{ }); d.GetCatalog().GetDictionary().AddKey("VfPad", st.GetIndirectReference()); g.label("longer than the buffer"); }
        if (g.chance(1, 3)) { d.GetOrCreateAcroForm().GetObject().GetDictionary().AddKey("NeedAppearances", true); }
        if (g.chance(1, 4)) { static const std::pair<PdfEncryptAlgorithm, PdfKeyLength> al[] = { { PdfEncryptAlgorithm::RC4V1, PdfKeyLength::L40 }, { PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128 }, { PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128 }, { PdfEncryptAlgorithm::AESV3, PdfKeyLength::L256 } }; auto& a = al[g.draw(3)]; pw = g.coin() ? "user" : "owner"; d.SetEncrypted("user", "owner", PdfPermissions::Default, a.first, a.second); enc = true; g.label("encrypted"); g.nontrivial(); }
        if (d.GetCatalog().GetDictionary().HasKey("VfPad")) so |= PdfSaveOptions::NoFlateCompress; StringStreamDevice dev(first); d.Save(dev, so); }
    files.push_back(first); std::string path; auto open = [&](std::unique_ptr<PdfMemDocument>& doc) { doc.reset(new PdfMemDocument()); if (g.chance(1, 4)) { if (path.empty()) path = scratch("sign.pdf"); spit(path, files.back()); doc->Load(path, pw); } else { doc->LoadFromBuffer(bufferview(files.back().data(), files.back().size()), pw); } };
    std::unique_ptr<PdfMemDocument> doc; open(doc); if (doc->GetPages().GetCount() == 0) doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    unsigned rounds = 1 + (unsigned)g.weighted({ 3, 2, 1 }); std::vector<Done> done; std::map<std::string, int64_t> fieldNum; if (rounds > 1) { g.label("several signatures"); g.nontrivial(); }
    std::vector<std::string> waiting; std::map<std::string, Info> infos;
    for (unsigned r = 0; r < rounds; r++) {
        std::set<int64_t> before; for (auto o : doc->GetObjects()) before.insert(o->GetIndirectReference().ObjectNumber());
        PdfSignature* f; std::string name;
        if (!waiting.empty() && g.coin()) { name = waiting.back(); waiting.pop_back(); f = find(*doc, name); CHECK("lost-field", f, "the field " << name << " was lost"); g.label("field of an earlier revision"); }
        else { unsigned n = 1 + (unsigned)g.chance(1, 3); for (unsigned i = 0; i < n; i++) { name = "sig" + std::to_string(r) + "_" + std::to_string(i); auto& pg = doc->GetPages().GetPageAt((unsigned)g.draw(doc->GetPages().GetCount() - 1)); f = &pg.CreateField<PdfSignature>(name, refrich::rect(g)); if (i + 1 < n) waiting.push_back(name); } }
        fieldNum[name] = f->GetObject().GetIndirectReference().ObjectNumber(); Done dn; dn.field = name; Info& in = dn.info; if (g.chance(3, 4)) { f->EnsureValueObject(); setInfo(g, *f, in); }
        std::string title; if (g.chance(1, 4)) { title = "T" + std::to_string(r); doc->GetMetadata().SetTitle(PdfString(title)); }
        Sg s; s.filter = g.coin() ? "" : g.pick<std::string>({ "Vf.Sign", "a b", "Adobe.PPKMS" }); s.sub = g.pick<std::string>({ "adbe.pkcs7.detached", "ETSI.CAdES.detached", "ETSI.RFC3161", "x#y" }); s.type = g.pick<std::string>({ "Sig", "DocTimeStamp" });
        switch (g.weighted({ 4, 2, 1, 1 })) { case 0: s.dry = g.draw(60); break; case 1: s.dry = 1 + g.draw(6000); break; case 2: s.dry = 0; break; default: s.dry = 30000 + g.draw(9000); }
        bool over = g.chance(1, 20); size_t len = over ? s.dry + 1 + g.draw(20) : g.coin() ? s.dry : g.draw(s.dry); s.sig = g.bytesExact(std::min<size_t>(len, 200)); while (s.sig.size() < len) s.sig += s.sig.substr(0, std::min(len - s.sig.size(), s.sig.size())); if (g.chance(1, 3) && !s.sig.empty()) s.sig.back() = 0;
        PdfSaveOptions opt = genSave(g); g.trace("sign ", name, " with ", s.sig.size(), " of ", s.dry, " bytes; ", saveStr(opt)); Done& q = dn; q.sig = s.sig; q.sig.resize(std::max(s.dry, s.sig.size())); q.filter = s.GetSignatureFilter(); q.sub = s.sub; q.type = s.type;
        std::string base = files.back(), out; bool thrown = false; auto sign = [&](StreamDevice& dev) { try { SignDocument(*doc, dev, s, *f, opt); } catch (PdfError& e) { throw; } catch (std::runtime_error&) { thrown = true; } };
        switch (g.draw(3)) {
        case 0: { out = base; StringStreamDevice dev(out); sign(dev); break; }
        case 1: { std::string p = path.empty() ? scratch("sign.pdf") : path; path = p; if (slurp(p) != base) spit(p, base); { FileStreamDevice dev(p, FileMode::Open); sign(dev); } out = slurp(p); g.label("file"); break; }
        case 2: { std::stringstream st(std::ios::in | std::ios::out | std::ios::binary); st.write(base.data(), base.size()); st.seekp(0); st.seekg(0); { StandardStreamDevice dev((std::iostream&)st); sign(dev); } out = st.str(); g.label("standard stream"); break; }
        default: { charbuff b; b.resize(base.size()); std::copy(base.begin(), base.end(), b.begin()); { BufferStreamDevice dev(b); sign(dev); } out.assign(b.data(), b.size()); break; } }
        CHECK_EQ("overflow", thrown, over, "a signature of " << s.sig.size() << " bytes in " << s.dry); if (over) { g.label("too long"); CHECK("prefix", out.compare(0, base.size(), base) == 0, "the file was changed"); break; }
        CHECK("prefix", out.size() > base.size() && out.compare(0, base.size(), base) == 0, "the file did not keep its first " << base.size() << " bytes"); g.trace("appended: ", pbt::show(out.substr(base.size()), 2500));
        CHECK("order", s.log == "DRAC", "the signer was called in the order " << s.log); q.end = out.size(); q.signedData = s.data;
        auto rr = readStrict(out); if (rr.doc.objs.empty()) pbt::fail("empty", "nothing in the file"); done.push_back(dn); files.push_back(out);
        for (size_t i = 0; i < done.size(); i++) checkFile(out, rr.doc, fieldNum[done[i].field], done[i], enc, i + 1 == done.size());
        { const V& sv = resolve(rr.doc, *rr.doc.objs.at(fieldNum[name]).v.get("V")); int64_t a = sv.get("ByteRange")->a[1].i, b = sv.get("ByteRange")->a[2].i; if (out.size() > 65536) g.label("several pieces"); if (a / 65536 != b / 65536) { g.label("left out at a boundary"); g.nontrivial(); } }
        // nothing else changed
        if (!enc) { auto prev = readStrict(base); auto root = at(rr.doc, rr.doc.trailer.get("Root")); std::set<int64_t> may; may.insert(rr.doc.trailer.get("Root")->i); if (auto x = root->get("AcroForm"); x && x->k == K::Ref) may.insert(x->i); if (auto x = rr.doc.trailer.get("Info")) may.insert(x->i); for (auto& x : fieldNum) may.insert(x.second); { auto i = rr.doc.objs.at(fieldNum[name]).v.get("V"); may.insert(i->i); }
            for (auto& x : prev.doc.objs) { if (may.count(x.first) || !rr.doc.objs.count(x.first)) continue; auto t = at(prev.doc, x.second.v.get("Type")); if (t && (t->s == "Page" || t->s == "Pages" || t->s == "Metadata" || t->s == "XRef" || t->s == "ObjStm" || t->s == "Font")) continue; auto& n = rr.doc.objs.at(x.first); DiffOpt o; o.realTol = -1; auto df = diff(n.v, x.second.v, o); CHECK("others", (df.empty() && n.raw == x.second.raw) || n.gen != x.second.gen, "signing changed object " << x.first << ": " << df); } }
        checkInfo(*f, in, "after signing");
        bool again = g.coin(); std::unique_ptr<PdfMemDocument> d2; { d2.reset(new PdfMemDocument()); try { d2->LoadFromBuffer(bufferview(files.back().data(), files.back().size()), pw); } catch (PdfError& e) { pbt::fail("reload", std::string("the signed file cannot be loaded: ") + e.what()); }
            for (auto& x : done) { auto p = find(*d2, x.field); CHECK("reload-field", p, "the field " << x.field << " is not found in the file"); checkInfo(*p, x.info, "after loading the file"); auto v = p->GetObject().GetDictionary().FindKey("V"); auto c = v ? v->GetDictionary().FindKey("Contents") : nullptr; CHECK("reload-contents", c && c->IsString() && strRaw(c->GetString()) == x.sig, "the signature of " << x.field << " that was loaded is " << (c ? c->ToString() : "missing") << " instead of " << pbt::show(x.sig)); } if (!title.empty()) CHECK("title", d2->GetMetadata().GetTitle().has_value() && d2->GetMetadata().GetTitle()->GetString() == title, "the title"); }
        if (again) { if (g.coin()) doc = std::move(d2); else open(doc); g.label("loaded again"); }
    }
    if (done.empty() || done.size() != rounds) return;
    // the signatures are still the same strings when the document is written anew
    { std::string out; StringStreamDevice dev(out); doc->Save(dev, so); auto rr = readStrict(out); for (auto& x : done) { const V* v = at(rr.doc, rr.doc.objs.at(fieldNum[x.field]).v.get("V")); CHECK("saved-value", v && v->k == K::Dict, "the signature was lost"); auto c = v->get("Contents"); CHECK("saved-contents", c && c->k == K::Str && c->s == x.sig, "the signature of a document saved again is " << (c ? ref::show(*c) : "missing")); auto b = v->get("ByteRange"); CHECK("saved-range", b && b->k == K::Arr && b->a.size() == 4, "the byte range of a document saved again"); } }
    if (!path.empty()) unlink(path.c_str());
}
// the place of the signature relative to the pieces in which the file is read
PROP(C27, boundary, 220, 6000, 60) {
    size_t unit = g.chance(1, 4) ? 4096 : 65536; int64_t delta = g.range(0, 6) - 3; int what = (int)g.weighted({ 3, 2, 1 }); size_t dry = g.chance(1, 8) ? 33000 + g.draw(40000) : 1 + g.size(200); bool head = g.coin(); size_t extra = g.chance(1, 3) ? unit : 0; std::string sig = g.bytesExact(std::min<size_t>(dry, 50)); sig.resize(dry, 'z'); bool file = g.chance(1, 4), two = g.chance(1, 4);
    static const char* w[] = { "the signature starts", "the signature ends", "the file ends" }; std::string fill = g.bytesExact(16); size_t pad = 500 + g.draw(200); std::string out, base, path; int64_t a = 0, b = 0; bool hit = false;
    for (int t = 0; t < 5 && !hit; t++) {
        base.clear(); { PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& st = d.GetObjects().CreateDictionaryObject(); std::string big; while (big.size() < pad) big += fill; big.resize(pad); st.GetOrCreateStream().SetData(bufferview(big.data(), big.size()), PdfFilterList{ }); d.GetCatalog().GetDictionary().AddKey("VfPad", st.GetIndirectReference()); if (two) d.GetPages().GetPageAt(0).CreateField<PdfSignature>("first", PdfRect(0, 0, 5, 5)); StringStreamDevice dev(base); d.Save(dev, PdfSaveOptions::NoModifyDateUpdate | PdfSaveOptions::NoFlateCompress); }
        PdfMemDocument doc; doc.LoadFromBuffer(bufferview(base.data(), base.size())); auto& f = doc.GetPages().GetPageAt(0).CreateField<PdfSignature>("s", PdfRect(0, 0, 5, 5)); if (!head) doc.GetCatalog().GetDictionary().AddKey("VfTail", PdfString(std::string(300, 't')));
        Sg s; s.dry = dry; s.sig = sig; s.sub = "adbe.pkcs7.detached"; s.type = "Sig";
        if (file) { if (path.empty()) path = scratch("signb.pdf"); spit(path, base); { FileStreamDevice dev(path, FileMode::Open); SignDocument(doc, dev, s, f, PdfSaveOptions::NoModifyDateUpdate); } out = slurp(path); } else { out = base; StringStreamDevice dev(out); SignDocument(doc, dev, s, f, PdfSaveOptions::NoModifyDateUpdate); }
        auto v = f.GetObject().GetDictionary().FindKey("V"); auto br = v && v->IsDictionary() ? v->GetDictionary().FindKey("ByteRange") : nullptr; CHECK("range", br && br->IsArray() && br->GetArray().size() == 4, "no byte range after signing"); auto& ar = br->GetArray(); a = ar[1].GetNumber(); b = ar[2].GetNumber(); CHECK("range", ar[0].GetNumber() == 0 && a > 0 && b == a + (int64_t)dry * 2 + 2 && b + ar[3].GetNumber() == (int64_t)out.size(), "byte range " << br->ToString() << " in " << out.size() << " bytes");
        CHECK("covered", s.data == out.substr(0, a) + out.substr(b), "the signed data (" << s.data.size() << " bytes) are not those of the byte range (" << a << ", " << b << " of " << out.size() << ")"); CHECK("range-contents", out[a] == '<' && out[b - 1] == '>' && hexDecode(std::string(out, a + 1, b - a - 2) + ">") == sig, "what is left out is not the signature"); CHECK("order", s.log == "DRAC", "the signer was called in the order " << s.log);
        int64_t at = what == 0 ? a : what == 1 ? b : (int64_t)out.size(); int64_t off = (int64_t)((at - delta) % (int64_t)unit);g.trace("pad ", pad, " at ", at, " off ", off); if (off == 0 && at - delta >= (int64_t)unit) hit = true; else { int64_t add = (int64_t)unit - off; if (t > 0 && off < 64 && (int64_t)pad > off + 600) add = -off; pad += add + (t == 0 ? extra : 0); }
    }
    g.trace(w[what], " ", delta, " bytes after a multiple of ", unit); if (hit) { g.label(w[what]); if (!delta) { g.label("exactly at a boundary"); g.nontrivial(); } if (dry > 32766) g.label("a signature longer than the pieces"); } else { g.label("boundary not reached"); } if (!path.empty()) unlink(path.c_str());
}
