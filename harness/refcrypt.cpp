#include "refcrypt.h"
namespace ref {
static const unsigned char PAD[33] = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A";
static std::string pad32(const std::string& p) { std::string r = p.substr(0, 32); r += std::string((const char*)PAD, 32).substr(0, 32 - r.size()); return r; }
static std::string le(uint64_t v, int n) { std::string r; for (int i = 0; i < n; i++) r += (char)(v >> (8 * i)); return r; }
static std::string xr(std::string k, int i) { for (auto& c : k) c = (char)((unsigned char)c ^ i); return k; }
static int klen(const Crypt& c) { return c.R == 2 ? 5 : c.bits / 8; }
// algorithm 3, steps a-d; like Adobe's implementation, hashes only the bytes of the key (the text of the standard does not say so)
static std::string ownerRc4Key(const Crypt& c, const std::string& ownerPw) { std::string h = md5(pad32(ownerPw)); if (c.R >= 3) for (int i = 0; i < 50; i++) h = md5(h.substr(0, klen(c))); return h.substr(0, klen(c)); }
static std::string makeO(const Crypt& c) { std::string k = ownerRc4Key(c, c.owner.empty() ? c.user : c.owner), x = pad32(c.user); x = rc4(k, x); if (c.R >= 3) for (int i = 1; i <= 19; i++) x = rc4(xr(k, i), x); return x; }
// algorithm 2
static std::string fileKey(const Crypt& c, const std::string& padded) { std::string h = md5(padded + c.O.substr(0, 32) + le(c.P, 4) + c.id0 + (c.R >= 4 && !c.encMeta ? std::string("\xFF\xFF\xFF\xFF") : "")); if (c.R >= 3) for (int i = 0; i < 50; i++) h = md5(h.substr(0, klen(c))); return h.substr(0, klen(c)); }
static std::string makeU(const Crypt& c) { if (c.R == 2) return rc4(c.key, std::string((const char*)PAD, 32)); std::string x = md5(std::string((const char*)PAD, 32) + c.id0); x = rc4(c.key, x); for (int i = 1; i <= 19; i++) x = rc4(xr(c.key, i), x); return x; }
// algorithm 2.B (R6) or plain SHA-256 (R5)
static std::string hash5(int R, const std::string& pw, const std::string& salt, const std::string& u) {
    std::string k = sha(256, pw + salt + u); if (R < 6) return k;
    for (int i = 0;; i++) { std::string one = pw + k + u, k1; for (int j = 0; j < 64; j++) k1 += one; std::string e = aesCbcEncrypt(k.substr(0, 16), k.substr(16, 16), k1, false); int s = 0; for (int j = 0; j < 16; j++) s += (unsigned char)e[j]; k = sha(s % 3 == 0 ? 256 : s % 3 == 1 ? 384 : 512, e); if (i >= 63 && (unsigned char)e.back() <= i - 31) break; }
    return k.substr(0, 32);
}
void cryptMake(Crypt& c, pbt::Src& g) {
    if (c.V < 5) { c.O = makeO(c); c.key = fileKey(c, pad32(c.user)); c.U = makeU(c); if (c.R >= 3) { c.U += g.coin() ? std::string(16, '\0') : g.bytesExact(16); } return; }
    auto cut = [](const std::string& s) { return s.substr(0, 127); }; std::string z(16, '\0'); c.key = g.bytesExact(32); std::string uv = g.bytesExact(8), uk = g.bytesExact(8), ov = g.bytesExact(8), ok = g.bytesExact(8);
    std::string own = c.owner.empty() ? c.user : c.owner; c.U = hash5(c.R, cut(c.user), uv, "") + uv + uk; c.UE = aesCbcEncrypt(hash5(c.R, cut(c.user), uk, ""), z, c.key, false); c.O = hash5(c.R, cut(own), ov, c.U) + ov + ok; c.OE = aesCbcEncrypt(hash5(c.R, cut(own), ok, c.U), z, c.key, false);
    c.Perms = aesCbcEncrypt(c.key, z, le(c.P, 4) + "\xFF\xFF\xFF\xFF" + (c.encMeta ? "T" : "F") + "adb" + g.bytesExact(4), false);
}
V cryptDict(const Crypt& c, pbt::Src* g) {
    auto coin = [&] { return g && g->coin(); }; V d = V::dict({ { "Filter", V::name("Standard") }, { "V", V::integer(c.V) }, { "R", V::integer(c.R) }, { "O", V::str(c.O, true) }, { "U", V::str(c.U, true) } });
    d.m["P"] = V::integer((int32_t)c.P);
    if (c.V == 2 && (c.bits != 40 || coin())) d.m["Length"] = V::integer(c.bits);
    if (c.V >= 4) { std::map<std::string, V> f{ { "CFM", V::name(c.V == 5 ? "AESV3" : c.aes ? "AESV2" : "V2") } }; if (!g || !g->chance(1, 3)) f["AuthEvent"] = V::name("DocOpen"); if (!g || !g->chance(1, 3)) f["Length"] = V::integer(c.V == 5 ? 32 : 16); std::string n = g && g->chance(1, 3) ? "Custom" : "StdCF"; d.m["CF"] = V::dict({ { n, V::dict(f) } }); d.m["StmF"] = V::name(n); d.m["StrF"] = V::name(n); if (c.V == 4 ? coin() : !g || !g->chance(1, 4)) d.m["Length"] = V::integer(c.V == 5 ? 256 : 128); if (!c.encMeta || coin()) d.m["EncryptMetadata"] = V::boolean(c.encMeta); }
    if (c.V == 5) { d.m["OE"] = V::str(c.OE, true); d.m["UE"] = V::str(c.UE, true); d.m["Perms"] = V::str(c.Perms, true); }
    return d;
}
std::optional<Crypt> cryptOpen(const V& d, const std::string& id0, const std::string& pw, bool ownerOnly) {
    auto bad = [](const std::string& m) -> const V& { throw SyntaxError{ "encryption dictionary: " + m, 0 }; };
    auto need = [&](const char* k, K t) -> const V& { auto v = d.get(k); if (!v || v->k != t) return bad(std::string("no valid /") + k); return *v; };
    Crypt c; c.id0 = id0; if (need("Filter", K::Name).s != "Standard") bad("filter"); c.V = (int)need("V", K::Int).i; c.R = (int)need("R", K::Int).i; int64_t P = need("P", K::Int).i; if (P < INT32_MIN || P > INT32_MAX) bad("P does not fit 32 bits"); c.P = (uint32_t)P; c.O = need("O", K::Str).s; c.U = need("U", K::Str).s;
    if ((c.P & 3) != 0 || (c.P & 0xC0) != 0xC0 || (c.P >> 12) != 0xFFFFF) bad("reserved bits of P"); size_t n = c.V == 5 ? 48 : 32; if (c.O.size() != n || c.U.size() != n) bad("length of O or U"); auto len = d.get("Length"); if (auto e = d.get("EncryptMetadata")) { if (e->k != K::Bool) bad("EncryptMetadata"); if (c.V < 4) bad("EncryptMetadata needs V 4"); c.encMeta = e->b; }
    switch (c.V) { case 1: c.bits = 40; if (c.R != 2 && c.R != 3) bad("R for V 1"); if (len && len->i != 40) bad("Length for V 1"); break; case 2: c.bits = len ? (int)len->i : 40; if (c.R != 3) bad("R for V 2"); if (c.bits < 40 || c.bits > 128 || c.bits % 8) bad("Length"); break;
        case 4: case 5: { if (c.V == 4 ? c.R != 4 : c.R != 5 && c.R != 6) bad("R"); auto& cf = need("CF", K::Dict); auto& f = need("StmF", K::Name); if (need("StrF", K::Name).s != f.s) bad("reference supports one filter"); auto fd = cf.get(f.s); if (!fd || fd->k != K::Dict) bad("no crypt filter " + f.s); auto m = fd->get("CFM"); if (!m) bad("CFM"); if (c.V == 5) { if (m->s != "AESV3") bad("CFM"); c.bits = 256; c.aes = true; if (len && len->i != 256) bad("Length"); auto fl = fd->get("Length"); if (fl && fl->i != 32) bad("Length of the crypt filter"); } else { if (m->s != "AESV2" && m->s != "V2") bad("CFM"); c.aes = m->s == "AESV2"; c.bits = 128; if (len && len->i != 128) bad("Length for V 4"); auto fl = fd->get("Length"); if (fl && fl->i != 16 && fl->i != 128) bad("Length of the crypt filter"); } break; }
        default: bad("V"); }
    if (c.V < 5) {
        auto tryUser = [&](const std::string& padded) { c.key = fileKey(c, padded); std::string u = makeU(c); return c.R == 2 ? u == c.U : u == c.U.substr(0, 16); };
        if (!ownerOnly && tryUser(pad32(pw))) { c.user = pw; c.who = 1; return c; }
        std::string k = ownerRc4Key(c, pw), x = c.O; if (c.R == 2) x = rc4(k, x); else for (int i = 19; i >= 0; i--) x = rc4(xr(k, i), x);
        if (tryUser(x)) { c.owner = pw; c.who = 2; return c; } return std::nullopt;
    }
    c.OE = need("OE", K::Str).s; c.UE = need("UE", K::Str).s; c.Perms = need("Perms", K::Str).s; if (c.OE.size() != 32 || c.UE.size() != 32 || c.Perms.size() != 16) bad("length of OE, UE or Perms"); std::string p = pw.substr(0, 127), z(16, '\0');
    if (hash5(c.R, p, c.O.substr(32, 8), c.U) == c.O.substr(0, 32)) { c.key = aesCbcDecrypt(hash5(c.R, p, c.O.substr(40, 8), c.U), z, c.OE, false); c.who = 2; c.owner = pw; }
    else if (!ownerOnly && hash5(c.R, p, c.U.substr(32, 8), "") == c.U.substr(0, 32)) { c.key = aesCbcDecrypt(hash5(c.R, p, c.U.substr(40, 8), ""), z, c.UE, false); c.who = 1; c.user = pw; } else return std::nullopt;
    std::string pe = aesEcbDecrypt(c.key, c.Perms); if (pe.substr(9, 3) != "adb") bad("Perms do not decrypt"); if (pe.substr(0, 4) != le(c.P, 4)) bad("Perms and P differ"); if (pe[8] != (c.encMeta ? 'T' : 'F')) bad("Perms and EncryptMetadata differ"); return c;
}
static std::string objKey(const Crypt& c, int64_t num, uint32_t gen) { if (c.V == 5) return c.key; std::string h = md5(c.key + le((uint64_t)num, 3) + le(gen, 2) + (c.aes ? "sAlT" : "")); return h.substr(0, std::min<size_t>(16, c.key.size() + 5)); }
std::string cryptEnc(const Crypt& c, int64_t num, uint32_t gen, const std::string& data, pbt::Src* g) { std::string k = objKey(c, num, gen); if (!c.aes) return rc4(k, data); std::string iv = g ? g->bytesExact(16) : std::string(16, 'i'); return iv + aesCbcEncrypt(k, iv, data, true); }
std::string cryptDec(const Crypt& c, int64_t num, uint32_t gen, const std::string& data) { std::string k = objKey(c, num, gen); if (!c.aes) return rc4(k, data); if (data.empty()) return ""; if (data.size() < 32 || data.size() % 16) throw SyntaxError{ "AES data of " + std::to_string(data.size()) + " bytes", 0 }; std::string plain = aesCbcDecrypt(k, data.substr(0, 16), data.substr(16), false); unsigned p = (unsigned char)plain.back(); if (p < 1 || p > 16) throw SyntaxError{ "AES padding", 0 }; for (unsigned i = 0; i < p; i++) if ((unsigned char)plain[plain.size() - 1 - i] != p) throw SyntaxError{ "AES padding", 0 }; plain.resize(plain.size() - p); return plain; }
static void walk(const Crypt& c, int64_t num, uint32_t gen, V& v, bool enc, pbt::Src* g) {
    switch (v.k) { case K::Str: if (!v.s.empty() || (enc && c.aes && g && g->coin())) v.s = enc ? cryptEnc(c, num, gen, v.s, g) : cryptDec(c, num, gen, v.s); break; case K::Arr: for (auto& x : v.a) walk(c, num, gen, x, enc, g); break;
        case K::Dict: { auto t = v.get("Type"); bool sig = v.get("ByteRange") && t && t->k == K::Name && (t->s == "Sig" || t->s == "DocTimeStamp"); for (auto& x : v.m) if (!(sig && x.first == "Contents")) walk(c, num, gen, x.second, enc, g); break; } default: break; }
}
void cryptObj(const Crypt& c, int64_t num, Obj& o, bool enc, pbt::Src* g) {
    auto t = o.v.get("Type"); if (o.hasStream && t && t->k == K::Name && t->s == "XRef") return; walk(c, num, o.gen, o.v, enc, g);
    if (!o.hasStream) return; auto f = o.v.get("Filter"); bool ident = false; auto name = [&](const V* p) { auto n = p && p->k == K::Dict ? p->get("Name") : nullptr; return n ? n->s : std::string("Identity"); };
    if (f && f->k == K::Name && f->s == "Crypt") ident = name(o.v.get("DecodeParms")) == "Identity"; if (f && f->k == K::Arr && !f->a.empty() && f->a[0].s == "Crypt") { auto p = o.v.get("DecodeParms"); ident = name(p && p->k == K::Arr && !p->a.empty() ? &p->a[0] : nullptr) == "Identity"; }
    if (t && t->k == K::Name && t->s == "Metadata" && !c.encMeta) ident = true; if (ident) return;
    o.raw = enc ? cryptEnc(c, num, o.gen, o.raw, g) : cryptDec(c, num, o.gen, o.raw); auto l = o.v.m.find("Length"); if (l != o.v.m.end() && l->second.k == K::Int) l->second.i = (int64_t)o.raw.size();
}
Crypt cryptDoc(Doc& d, const std::string& pw, bool ownerOnly) {
    auto e = d.trailer.get("Encrypt"); CHECK("not-encrypted", e, "the file has no /Encrypt"); auto id = d.trailer.get("ID"); CHECK("no-id", id && id->k == K::Arr && id->a.size() == 2 && id->a[0].k == K::Str, "an encrypted file needs /ID"); std::optional<Crypt> c; V dict = resolve(d, *e);
    try { c = cryptOpen(dict, id->a[0].s, pw, ownerOnly); } catch (SyntaxError& x) { pbt::fail("encrypt-dictionary", x.msg + ": " + show(dict)); } CHECK("password", c.has_value(), "the password '" << pbt::show(pw) << "' does not open the file " << (ownerOnly ? "as the owner's: " : ": ") << show(dict));
    for (auto& o : d.objs) { if (e->k == K::Ref && o.first == e->i) continue; try { cryptObj(*c, o.first, o.second, false, nullptr); } catch (SyntaxError& x) { pbt::fail("not-decryptable", "object " + std::to_string(o.first) + ": " + x.msg + ": " + show(o.second.v)); } } return *c;
}
}
