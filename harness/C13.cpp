// C13: encryption.
#include "refcrypt.h"
#include "refrich.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the document has a non-empty string and a stream, and at least one password is not empty";
    pbt::g_assumptions = "strings and streams use the same crypt filter\npasswords of revisions 5 and 6 are compared after SASLprep, for which a table of samples is used\nwhat a wrong password does is decided for passwords that differ in the bytes the revision uses";
} } init;
struct Alg { PdfEncryptAlgorithm a; PdfKeyLength len; int V, R, bits; };
static const std::vector<Alg>& algs() { static std::vector<Alg> v{ { PdfEncryptAlgorithm::RC4V1, PdfKeyLength::L40, 1, 2, 40 }, { PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128, 2, 3, 128 }, { PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128, 4, 4, 128 }, { PdfEncryptAlgorithm::AESV3, PdfKeyLength::L256, 5, 5, 256 }, { PdfEncryptAlgorithm::AESV3R6, PdfKeyLength::L256, 5, 6, 256 }, { PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L40, 2, 3, 40 }, { PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L56, 2, 3, 56 }, { PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L80, 2, 3, 80 }, { PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L96, 2, 3, 96 } }; return v; }
// a password: what the caller passes and what the handler uses
struct Pw { std::string in, eff; };
static Pw genPw(pbt::Src& g, int R, bool allowEmpty) {
    Pw p; unsigned w = (unsigned)g.weighted({ 6, 1, 1, 2 }); if (allowEmpty && g.chance(1, 4)) return p; unsigned n = w == 1 ? 28 + (unsigned)g.draw(10) : w == 2 ? 120 + (unsigned)g.draw(20) : 1 + (unsigned)g.draw(9);
    if (R < 5) { for (unsigned i = 0; i < n; i++) p.in += (char)(w == 3 ? 1 + g.draw(254) : 33 + g.draw(93)); p.eff = p.in.substr(0, 32); return p; }
    static const std::vector<std::pair<const char*, const char*>> al{ { "a", "a" }, { "Z", "Z" }, { "7", "7" }, { "(", "(" }, { "\xC3\xA9", "\xC3\xA9" }, { "e\xCC\x81", "\xC3\xA9" }, { "\xC2\xAD", "" }, { "\xE2\x85\xA3", "IV" }, { "\xC2\xA0", " " }, { "\xEF\xBC\xA1", "A" }, { "\xE4\xB8\xAD", "\xE4\xB8\xAD" }, { "\xC2\xAA", "a" } };
    for (unsigned i = 0; i < n; i++) { auto& x = al[w == 3 ? g.index(al.size()) : g.index(4)]; p.in += x.first; p.eff += x.second; } if (p.eff.empty()) { p.in += "a"; p.eff += "a"; } p.eff = p.eff.substr(0, 127); return p;
}
static PdfPermissions genPerms(pbt::Src& g) { static const PdfPermissions ps[] = { PdfPermissions::Print, PdfPermissions::Edit, PdfPermissions::Copy, PdfPermissions::EditNotes, PdfPermissions::FillAndSign, PdfPermissions::Accessible, PdfPermissions::DocAssembly, PdfPermissions::HighPrint }; PdfPermissions r = PdfPermissions::None; for (auto p : ps) if (g.coin()) r = r | p; return r; }
static void checkPerms(const PdfMemDocument& d, uint32_t P) {
    auto b = [&](int n) { return ((P >> (n - 1)) & 1) != 0; }; CHECK_EQ("permissions", d.IsPrintAllowed(), b(3), "print"); CHECK_EQ("permissions", d.IsEditAllowed(), b(4), "edit"); CHECK_EQ("permissions", d.IsCopyAllowed(), b(5), "copy"); CHECK_EQ("permissions", d.IsEditNotesAllowed(), b(6), "edit notes"); CHECK_EQ("permissions", d.IsFillAndSignAllowed(), b(9), "fill and sign"); CHECK_EQ("permissions", d.IsAccessibilityAllowed(), b(10), "accessibility"); CHECK_EQ("permissions", d.IsDocAssemblyAllowed(), b(11), "assembly"); CHECK_EQ("permissions", d.IsHighPrintAllowed(), b(12), "high quality print");
    CHECK("encrypted", d.GetEncrypt(), "the document does not say it is encrypted");
}
// loads with a password; null when it is refused as wrong
static std::unique_ptr<PdfMemDocument> open(const std::string& bytes, const std::string& pw) {
    auto d = std::make_unique<PdfMemDocument>(); try { d->LoadFromBuffer(bufferview(bytes.data(), bytes.size()), pw); } catch (PdfError& e) { if (e.GetError() == PdfErrorCode::InvalidPassword) return nullptr; throw; } return d;
}
static std::string other(pbt::Src& g, const Pw& a, const Pw& b, int R) { Pw p = genPw(g, R, true); if (g.coin()) { p = g.coin() ? a : b; if (p.eff.empty()) p.eff = p.in = "x"; else { unsigned k = g.index(p.eff.size()); unsigned char c = (unsigned char)p.eff[k]; if (c < 128 && c > 40) { p.eff[k] = (char)(c - 1); p.in = p.eff; } } } if (p.eff != a.eff && p.eff != b.eff) return p.in; for (auto x : { "zz9", "yy8" }) if (a.eff != x && b.eff != x) return x; return "ww7"; }
// what the file must decrypt to, with each password
struct Want { std::map<int64_t, Snap> objs; Pw user, owner; uint32_t P; int V, R, bits; std::set<int64_t> ignore; bool encMeta = true; double tol = 5.1e-7; };
static void dropMod(std::map<int64_t, Snap>& s, const V& trailer) { auto i = trailer.get("Info"); if (!i || i->k != K::Ref) return; auto it = s.find(i->i); if (it != s.end()) it->second.v.m.erase("ModDate"); }
static void checkFile(pbt::Src& g, const std::string& bytes, const Want& w, const std::string& marker) {
    if (!marker.empty()) CHECK("plaintext", bytes.find(marker) == std::string::npos, "the file contains the text '" << marker << "' in the clear");
    const Pw& own = w.owner.eff.empty() ? w.user : w.owner; std::string key;
    for (int who = 0; who < 2; who++) {
        Crypt c; std::set<int64_t> ig = w.ignore; auto r = readStrict(bytes, [&](Doc& d) { c = cryptDoc(d, who ? own.eff : w.user.eff, who == 1); if (d.trailer.get("Encrypt")->k == K::Ref) ig.insert(d.trailer.get("Encrypt")->i); }); for (auto& o : r.doc.objs) { auto t = o.second.v.get("Type"); if (t && t->k == K::Name && (t->s == "XRef" || t->s == "ObjStm")) ig.insert(o.first); }
        CHECK_EQ("permissions", c.P, w.P, "P in the file"); if (!(w.V == 4 && !c.aes && c.encMeta && c.R == 3)) CHECK_EQ("algorithm", c.R, w.R, "revision in the file"); CHECK_EQ("algorithm", c.bits, w.bits, "key length in the file"); CHECK_EQ("encrypt-metadata", c.encMeta, w.encMeta, "EncryptMetadata"); if (who) CHECK("key", key == c.key, "the passwords give different keys"); key = c.key;
        auto got = snap(r.doc); dropMod(got, r.doc.trailer); CmpOpt co; co.ignore = ig; co.gens = false; co.realTol = w.tol; auto df = compare(got, w.objs, co); CHECK("decrypted", df.empty(), "decrypting the file with the " << (who ? "owner" : "user") << "'s password gives something else: " << df);
        auto d = open(bytes, who ? own.in : w.user.in); CHECK("reload", d != nullptr, "the " << (who ? "owner" : "user") << "'s password is refused"); auto s = snapshot(*d); dropMod(s, fromObj(d->GetTrailer().GetObject())); df = compare(s, w.objs, co); CHECK("reload", df.empty(), "loading with the " << (who ? "owner" : "user") << "'s password gives something else: " << df); checkPerms(*d, w.P);
    }
    std::vector<std::string> wrong{ other(g, w.user, own, w.R) }; if (!w.user.eff.empty() && !own.eff.empty()) wrong.push_back("");
    for (auto& p : wrong) { auto d = open(bytes, p); CHECK("wrong-password", !d, "the password '" << pbt::show(p) << "' opens the file"); }
}
static bool rich(const std::map<int64_t, Snap>& s) { bool str = false, stm = false; std::function<void(const V&)> w = [&](const V& v) { str |= v.k == K::Str && !v.s.empty(); for (auto& x : v.a) w(x); for (auto& x : v.m) w(x.second); }; for (auto& x : s) { w(x.second.v); stm |= x.second.hasStream; } return str && stm; }
static std::unique_ptr<PdfMemDocument> created(pbt::Src& g, const std::string& marker, std::unique_ptr<M>& m) {
    auto doc = std::make_unique<PdfMemDocument>();
    if (g.coin()) { refrich::Opt o; o.word = marker; o.fonts = g.chance(1, 6); refrich::enrich(g, *doc, 1 + g.size(6), o); g.label("rich"); }
    else { Opt o; o.extra = 1 + g.size(8); o.values.depth = 3; m = std::make_unique<M>(gen(g, o)); g.trace(str(*m)); buildMm(g, *m, *doc); g.label("values"); }
    doc->GetMetadata().SetTitle(PdfString(marker)); return doc;
}
static Want genWant(pbt::Src& g, const Alg& a) { Want w; w.V = a.V; w.R = a.R; w.bits = a.bits; w.user = genPw(g, a.R, true); w.owner = genPw(g, a.R, true); w.P = 0xFFFFF0C0u | (uint32_t)genPerms(g); g.trace("V", a.V, " R", a.R, " bits ", a.bits, " user '", pbt::show(w.user.in), "' owner '", pbt::show(w.owner.in), "' P ", w.P); g.label("R" + std::to_string(a.R)); return w; }
static const char* MARK = "vFmArKeRwOrD";
PROP(C13, created, 1500, 40000, 30) {
    std::unique_ptr<M> m; auto doc = created(g, MARK, m); const Alg& a = g.pick(algs()); Want w = genWant(g, a); doc->SetEncrypted(w.user.in, w.owner.in, (PdfPermissions)(w.P & ~0xFFFFF0C0u), a.a, a.V == 1 ? g.pick({ PdfKeyLength::L40, PdfKeyLength::L128 }) : a.len);
    PdfSaveOptions o = genSave(g); std::string bytes; w.objs = {}; { V t = fromObj(doc->GetTrailer().GetObject()); (void)t; } bytes = save(*doc, o); w.objs = snapshot(*doc); dropMod(w.objs, fromObj(doc->GetTrailer().GetObject())); g.trace("save ", saveStr(o)); g.trace(pbt::show(bytes, 2500));
    checkFile(g, bytes, w, MARK); if (rich(w.objs) && !(w.user.eff.empty() && w.owner.eff.empty())) g.nontrivial();
}
// ---- files another producer encrypted ---------------------------------------------------------------
struct Foreign { M m; Crypt c; Pw user, owner; std::string bytes; std::set<int64_t> helpers; int64_t encNum = 0; };
static Foreign foreign(pbt::Src& g, unsigned revisions) {
    Foreign f; Opt o; o.extra = 1 + g.size(8); o.values.depth = 3; o.gens = g.chance(1, 3); o.sparse = g.chance(1, 3); f.m = gen(g, o); auto& m = f.m; auto& c = f.c;
    struct Kind { int V, R, bits; bool aes; }; static const std::vector<Kind> ks{ { 1, 2, 40, false }, { 2, 3, 128, false }, { 4, 4, 128, true }, { 5, 5, 256, true }, { 5, 6, 256, true }, { 4, 4, 128, false }, { 2, 3, 40, false }, { 2, 3, 104, false }, { 2, 3, 64, false }, { 1, 3, 40, false } }; auto& k = g.pick(ks); c.V = k.V; c.R = k.R; c.bits = k.bits; c.aes = k.aes;
    if (c.V >= 4) c.encMeta = !g.chance(1, 3); c.P = 0xFFFFF0C0u | (uint32_t)genPerms(g); f.user = genPw(g, c.R, true); f.owner = genPw(g, c.R, true); c.user = f.user.eff; c.owner = f.owner.eff; c.id0 = g.chance(1, 5) ? g.bytes(20) : g.bytesExact(16);
    if (g.chance(1, 3)) { int64_t n = m.max() + 1; Obj mo; mo.v = V::dict({ { "Type", V::name("Metadata") }, { "Subtype", V::name("XML") } }); std::string x = "<x>" + genData(g, 60) + "</x>"; if (g.coin() && !c.encMeta) { mo.v.m["Filter"] = V::arr({ V::name("Crypt") }); if (g.coin()) mo.v.m["DecodeParms"] = V::arr({ V::dict({ { "Name", V::name("Identity") } }) }); } mo.hasStream = true; mo.raw = x; mo.v.m["Length"] = V::integer((int64_t)x.size()); m.d.objs[n] = mo; m.data[n] = x; m.d.objs[m.root()].v.m["Metadata"] = V::refTo(n, 0); g.label("metadata"); }
    if (g.chance(1, 4)) { int64_t n = m.max() + 1; Obj so; so.v = V::dict({ { "Type", V::name(g.coin() ? "Sig" : "DocTimeStamp") }, { "ByteRange", V::arr({ V::integer(0), V::integer(1), V::integer(2), V::integer(3) }) }, { "Reason", V::str("because") }, { "Contents", V::str(g.bytes(30), true) } }); m.d.objs[n] = so; m.d.objs[m.root()].v.m["VfSig"] = V::refTo(n, 0); g.label("signature"); }
    if (c.V >= 4 && g.chance(1, 4)) { int64_t n = m.max() + 1; Obj so; so.hasStream = true; std::string x = genData(g, 60); so.v = V::dict({ { "Filter", V::arr({ V::name("Crypt") }) } }); if (g.coin()) so.v.m["DecodeParms"] = V::arr({ V::dict({ { "Name", V::name("Identity") } }) }); so.raw = x; so.v.m["Length"] = V::integer((int64_t)x.size()); m.d.objs[n] = so; m.data[n] = x; m.d.objs[m.root()].v.m["VfIdentity"] = V::refTo(n, 0); g.label("identity stream"); }
    m.d.trailer.m["ID"] = V::arr({ V::str(c.id0, true), V::str(g.bytesExact(16), true) }); cryptMake(c, g); V ed = cryptDict(c, &g); if (g.coin()) { f.encNum = m.max() + 1; Obj eo; eo.v = ed; m.d.objs[f.encNum] = eo; m.d.trailer.m["Encrypt"] = V::refTo(f.encNum, 0); } else m.d.trailer.m["Encrypt"] = ed;
    auto& encNum = f.encNum; o.crypt = [&](int64_t n, Obj& ob) { if (n != encNum) cryptObj(c, n, ob, true, &g); }; History h = history(g, m, o, revisions, g.coin()); f.bytes = h.bytes; f.helpers = h.helpers; if (f.encNum) m.d.objs.erase(f.encNum);
    g.trace("V", c.V, " R", c.R, " bits ", c.bits, c.aes ? " AES" : " RC4", c.encMeta ? "" : " plain metadata", " user '", pbt::show(f.user.in), "' owner '", pbt::show(f.owner.in), "' P ", c.P); g.trace(pbt::show(f.bytes, 3000)); g.label("R" + std::to_string(c.R) + (c.aes ? " AES" : " RC4")); return f;
}
PROP(C13, foreign, 2500, 60000, 30) {
    Foreign f = foreign(g, 1 + (unsigned)g.draw(2)); auto& c = f.c; Pw own = f.owner.eff.empty() ? f.user : f.owner; auto want = snap(f.m); CmpOpt co; co.ignore = f.helpers; co.realTol = 1e-9; if (f.encNum) co.ignore.insert(f.encNum);
    for (int who = 0; who < 2; who++) { auto d = open(f.bytes, who ? own.in : f.user.in); CHECK("refused", d != nullptr, "the " << (who ? "owner" : "user") << "'s password is refused"); auto s = snapshot(*d); auto r = compare(s, want, co); CHECK("loaded", r.empty(), "the document loaded with the " << (who ? "owner" : "user") << "'s password differs: " << r); checkPerms(*d, c.P); CHECK_EQ("algorithm", d->GetEncrypt()->GetRevision(), c.R, "revision"); CHECK_EQ("algorithm", d->GetEncrypt()->GetKeyLength(), c.bits, "key length"); CHECK_EQ("encrypt-metadata", d->GetEncrypt()->IsMetadataEncrypted(), c.encMeta, "EncryptMetadata"); }
    auto d = open(f.bytes, other(g, f.user, own, c.R)); CHECK("wrong-password", !d, "a wrong password opens the file"); if (!f.user.eff.empty()) { auto e = open(f.bytes, ""); CHECK("wrong-password", !e || own.eff.empty(), "the empty password opens the file"); }
    if (rich(want) && !(f.user.eff.empty() && f.owner.eff.empty())) g.nontrivial();
}
// changes to a loaded document
static void change(pbt::Src& g, PdfMemDocument& d, const std::string& marker) {
    unsigned k = 1 + g.size(3); std::vector<PdfReference> rs; for (auto* o : d.GetObjects()) rs.push_back(o->GetIndirectReference());
    for (unsigned i = 0; i < k; i++) switch (g.draw(3)) {
        case 0: { auto& o = d.GetObjects().CreateObject(PdfObject(PdfString(marker))); d.GetCatalog().GetDictionary().AddKey(PdfName("VfN" + std::to_string(g.draw(99))), PdfObject(o.GetIndirectReference())); break; }
        case 1: { auto& o = d.GetObjects().CreateDictionaryObject(); o.GetOrCreateStream().SetData(marker + genData(g, 100), g.coin() ? PdfFilterList() : PdfFilterList{ PdfFilterType::FlateDecode }); d.GetCatalog().GetDictionary().AddKey(PdfName("VfS" + std::to_string(g.draw(99))), PdfObject(o.GetIndirectReference())); break; }
        case 2: { auto o = d.GetObjects().GetObject(g.pick(rs)); if (o && o->IsDictionary() && (!o->GetDictionary().GetKey("Type") || o->GetDictionary().GetKey("Type")->GetName() == "Page")) o->GetDictionary().AddKey("VfC", PdfString(marker)); break; }
        default: d.GetMetadata().SetTitle(PdfString(marker + std::to_string(g.draw(9)))); }
}
PROP(C13, resaved, 1500, 40000, 30) {
    Foreign f = foreign(g, 1 + (unsigned)g.draw(1)); auto& c = f.c; Pw own = f.owner.eff.empty() ? f.user : f.owner; std::string cur = f.bytes; unsigned rounds = 1 + (unsigned)g.draw(2); Want w; w.user = f.user; w.owner = own; w.P = c.P; w.V = c.V; w.R = c.R; w.bits = c.bits; w.encMeta = c.encMeta; w.ignore = f.helpers; if (f.encNum) w.ignore.insert(f.encNum);
    for (unsigned i = 0; i < rounds; i++) {
        bool asOwner = g.coin(); auto d = open(cur, asOwner ? own.in : f.user.in); CHECK("refused", d != nullptr, "password refused"); bool changed = g.chance(4, 5); if (changed) change(g, *d, MARK); bool upd = g.coin(); PdfSaveOptions o = genSave(g); std::string out;
        if (upd) { out = cur; StringStreamDevice dev(out); d->SaveUpdate(dev, o); } else out = save(*d, o); auto before = snapshot(*d); dropMod(before, fromObj(d->GetTrailer().GetObject()));
        g.trace(asOwner ? "as owner " : "as user ", upd ? "update " : "save ", saveStr(o)); g.trace(pbt::show(out.substr(upd ? cur.size() : 0), 2500)); w.objs = before; w.tol = 5.1e-7;
        checkFile(g, out, w, MARK); cur = out; g.label(upd ? "updated" : "saved"); if (changed) g.nontrivial();
    }
}
// encryption put on, exchanged or removed
PROP(C13, recrypted, 1200, 30000, 30) {
    Foreign f = foreign(g, 1); auto d = open(f.bytes, g.coin() ? f.user.in : (f.owner.eff.empty() ? f.user.in : f.owner.in)); CHECK("refused", d != nullptr, "password refused"); if (g.coin()) change(g, *d, MARK); bool late = g.coin(); std::map<int64_t, Snap> before; if (!late) before = snapshot(*d); PdfSaveOptions o = genSave(g) | PdfSaveOptions::NoModifyDateUpdate; std::set<int64_t> ignore = f.helpers; if (f.encNum) ignore.insert(f.encNum);
    if (g.coin()) { d->SetEncrypt(nullptr); CHECK("not-encrypted", !d->IsEncrypted(), "still encrypted"); std::string out = save(*d, o); before = snapshot(*d); auto r = readStrict(out); CHECK("decrypted", !r.doc.trailer.get("Encrypt"), "the file still has /Encrypt"); for (auto& x : r.doc.objs) { auto t = x.second.v.get("Type"); if (t && t->k == K::Name && (t->s == "XRef" || t->s == "ObjStm")) ignore.insert(x.first); } CmpOpt co; co.ignore = ignore; co.gens = false; auto df = compare(snap(r.doc), before, co); CHECK("decrypted", df.empty(), "the decrypted file differs: " << df); auto n = open(out, ""); df = compare(snapshot(*n), before, co); CHECK("decrypted", df.empty(), "the decrypted document differs: " << df); CHECK("decrypted", n->IsPrintAllowed() && n->IsEditAllowed() && n->IsCopyAllowed(), "permissions of a document that is not encrypted"); g.label("removed"); }
    else { const Alg& a = g.pick(algs()); Want w = genWant(g, a); d->SetEncrypted(w.user.in, w.owner.in, (PdfPermissions)(w.P & ~0xFFFFF0C0u), a.a, a.len); std::string out = save(*d, o); w.objs = snapshot(*d); dropMod(w.objs, fromObj(d->GetTrailer().GetObject())); w.ignore = ignore; g.trace(pbt::show(out, 2500)); checkFile(g, out, w, MARK); g.label("exchanged"); }
    g.nontrivial();
}
// the handler itself
PROP(C13, handler, 3000, 80000, 20) {
    const Alg& a = g.pick(algs()); Want w = genWant(g, a); std::string id = g.bytes(20); auto e = PdfEncrypt::Create(w.user.in, w.owner.in, (PdfPermissions)(w.P & ~0xFFFFF0C0u), a.a, a.len); PdfString ids = strOf(id, false); e->GenerateEncryptionKey(ids); const Pw& own = w.owner.eff.empty() ? w.user : w.owner;
    PdfDictionary pd; e->CreateEncryptionDictionary(pd); V dict = fromVar(PdfVariant(pd)); Crypt c; for (int who = 0; who < 2; who++) { std::optional<Crypt> x; try { x = cryptOpen(dict, id, who ? own.eff : w.user.eff, who); } catch (SyntaxError& s) { pbt::fail("encrypt-dictionary", s.msg + ": " + show(dict)); } CHECK("password", x.has_value(), (who ? "owner" : "user") << " password does not open " << show(dict)); c = *x; }
    PdfEncrypt* use = e.get(); std::unique_ptr<PdfEncrypt> loaded, copied; unsigned how = (unsigned)g.draw(3); if (how & 1) { PdfObject obj(pd); loaded = PdfEncrypt::CreateFromObject(obj); CHECK("wrong-password", !loaded->Authenticate(other(g, w.user, own, a.R), ids), "a wrong password is accepted"); CHECK("authenticate", loaded->Authenticate(g.coin() ? w.user.in : own.in, ids), "the password is not accepted"); use = loaded.get(); } if (how & 2) { copied = PdfEncrypt::CreateFromEncrypt(*use); use = copied.get(); } g.trace("handler variant ", how);
    unsigned k = 1 + (unsigned)g.draw(3); for (unsigned i = 0; i < k; i++) {
        PdfReference r((uint32_t)(1 + (g.chance(1, 4) ? g.draw(8388606) : g.draw(300))), (uint16_t)(g.chance(1, 3) ? g.draw(65535) : 0)); std::string data = g.chance(1, 8) ? std::string(g.draw(9000), 'x') + g.bytes(20) : g.bytes(70); charbuff out; use->EncryptTo(out, bufferview(data.data(), data.size()), r); std::string enc(out.data(), out.size()); CHECK_EQ("encrypted-length", enc.size(), use->CalculateStreamLength(data.size()), "length of encrypted data"); std::string dec; try { dec = cryptDec(c, r.ObjectNumber(), r.GenerationNumber(), enc); } catch (SyntaxError& s) { pbt::fail("encrypt", s.msg); } CHECK("encrypt", dec == data, "data encrypted for " << r.ToString() << " decrypts to something else");
        if (c.aes) { charbuff again; use->EncryptTo(again, bufferview(data.data(), data.size()), r); CHECK("initialization-vector", std::string(again.data(), again.size()) != enc, "the same initialization vector is used twice"); }
        std::string fe = cryptEnc(c, r.ObjectNumber(), r.GenerationNumber(), data, &g); charbuff in; use->DecryptTo(in, bufferview(fe.data(), fe.size()), r); CHECK("decrypt", std::string(in.data(), in.size()) == data, "decrypting for " << r.ToString() << " gives something else");
        SpanStreamDevice src(bufferview(fe.data(), fe.size())); auto is = use->CreateEncryptionInputStream(src, fe.size(), r); std::string got; bool eof = false; unsigned step = 1 + (unsigned)g.draw(g.coin() ? 40 : 5000); std::vector<char> b(step); while (!eof) { size_t n = is->Read(b.data(), step, eof); got.append(b.data(), n); CHECK("decrypt-stream", got.size() <= data.size() + 32, "the stream does not end"); } CHECK("decrypt-stream", got == data, "reading in steps of " << step << " gives " << got.size() << " bytes that differ, of " << data.size());
        if (!c.aes) { std::string so; StringStreamDevice dst(so); auto os = use->CreateEncryptionOutputStream(dst, r); size_t p = 0; while (p < data.size()) { size_t n = std::min<size_t>(data.size() - p, 1 + g.draw(50)); os->Write(data.data() + p, n); p += n; } CHECK("encrypt-stream", so == cryptEnc(c, r.ObjectNumber(), r.GenerationNumber(), data, nullptr), "the stream encrypts differently"); }
    }
    if (c.V == 5) { auto e2 = PdfEncrypt::Create(w.user.in, w.owner.in, (PdfPermissions)(w.P & ~0xFFFFF0C0u), a.a, a.len); e2->GenerateEncryptionKey(ids); CHECK("key-reused", memcmp(e2->GetEncryptionKey(), e->GetEncryptionKey(), 32) != 0, "two handlers generate the same file key"); } g.nontrivial();
}
