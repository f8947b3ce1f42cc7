// C05: encoding a stream and decoding it returns the same bytes; object streams keep what is put in them.
#include "refmm.h"
using namespace mm; using namespace ref; using namespace refmm;
static struct Init { Init() {
    pbt::g_rule = "filters/chains: data longer than 16 bytes, or more than one filter; streams: a history of at least 4 operations of which one combines a foreign encoding, an append or a copy";
    pbt::g_assumptions = "encoders exist for ASCIIHex, ASCII85 and Flate only (the library has none for LZW and RunLength)\nzlib is trusted\nstreamed documents are not covered: PdfImmediateWriter::Finish reports NotImplemented";
} } init;
static const std::vector<PdfFilterType> Enc = { PdfFilterType::FlateDecode, PdfFilterType::ASCIIHexDecode, PdfFilterType::ASCII85Decode };
static std::string genData(pbt::Src& g, unsigned max) {
    switch (g.weighted({ 4, 2, 2, 1, 1 })) {
        case 0: return g.bytes(std::min(max, 300u));
        case 1: { std::string r; unsigned n = g.size(40); for (unsigned i = 0; i < n && r.size() < max; i++) r.append(g.size(20), (char)(g.coin() ? 0 : g.draw(255))); return r; }
        case 2: { std::string unit = g.bytes(12), r; unsigned n = g.size(200); for (unsigned i = 0; i < n && r.size() < max; i++) r += unit; return r; }
        case 3: { unsigned n = g.size(max); uint64_t s = g.draw(~0ull >> 1); std::string r(n, 0); for (auto& c : r) { s = s * 6364136223846793005ull + 1442695040888963407ull; c = (char)(s >> 56); } return r; }
        default: { unsigned n = (unsigned)g.pick<int>({ 4095, 4096, 4097, 8192, 12288, 4094, 8191 }); return std::string(std::min(n, max), (char)g.draw(255)); }
    }
}
static std::string fname(PdfFilterType f) { switch (f) { case PdfFilterType::FlateDecode: return "FlateDecode"; case PdfFilterType::ASCIIHexDecode: return "ASCIIHexDecode"; case PdfFilterType::ASCII85Decode: return "ASCII85Decode"; case PdfFilterType::LZWDecode: return "LZWDecode"; case PdfFilterType::RunLengthDecode: return "RunLengthDecode"; default: return "?"; } }
static std::string refDecode(PdfFilterType f, const std::string& d) { V dict = V::dict({ { "Filter", V::name(fname(f)) } }); try { return decodeStream(dict, d); } catch (SyntaxError& e) { pbt::fail("illegal-encoding", fname(f) + ": " + e.msg + " in " + pbt::show(d)); } }
static std::vector<std::string> split(pbt::Src& g, const std::string& d) {
    std::vector<std::string> r; size_t p = 0; unsigned mode = (unsigned)g.draw(3);
    while (p < d.size()) { size_t n = mode == 0 ? d.size() : mode == 1 ? 1 : mode == 2 ? 1 + g.size(7) : 1 + g.size(5000); if (mode == 1 && r.size() > 500) n = d.size(); r.push_back(d.substr(p, n)); p += n; if (g.chance(1, 20)) r.push_back(""); }
    return r;
}
static std::string readAll(pbt::Src& g, InputStream& in) {
    std::string r; unsigned mode = (unsigned)g.draw(4); char buf[9000]; size_t cap = 0;
    while (cap++ < 200000) {
        unsigned m = mode == 4 ? (unsigned)g.draw(3) : mode;
        if (m == 0) { std::string rest; StringStreamDevice d2(rest); in.CopyTo(d2); r += rest; return r; }
        if (m == 1 && cap < 3000) { char c; if (!in.Read(c)) return r; r += c; continue; }
        size_t n = m == 2 ? 1 + g.size(16) : 1 + g.size(8999); bool eof = false; size_t k = in.Read(buf, n, eof); CHECK("read-size", k <= n, k << " of " << n); r.append(buf, k); if (eof) return r; CHECK("short-read", k == n, "read " << k << " of " << n << " without end of file");
    }
    pbt::fail("endless", "reading does not end");
}
static std::string cstr(const charbuff& b) { return std::string(b.data(), b.size()); }

PROP(C05, filters, 30000, 600000, 20) {
    auto t = g.pick(Enc); auto f = PdfFilterFactory::Create(t); CHECK("factory", f && f->GetType() == t && f->CanEncode() && f->CanDecode(), fname(t)); unsigned rounds = 1 + g.size(3);
    for (unsigned r = 0; r < rounds; r++) { // the same filter object is used again and again
        std::string d = genData(g, 20000); g.trace(fname(t), " ", d.size(), " bytes ", pbt::show(d, 200)); if (d.size() > 16) g.nontrivial(); g.label(fname(t));
        std::string enc;
        if (g.coin()) { charbuff b; f->EncodeTo(b, bufferview(d.data(), d.size())); enc = cstr(b); }
        else { std::string out; StringStreamDevice dev(out); f->BeginEncode(dev); for (auto& c : split(g, d)) f->EncodeBlock(bufferview(c.data(), c.size())); f->EndEncode(); enc = out; }
        CHECK_EQ("other-decoder", pbt::hex(refDecode(t, enc)), pbt::hex(d), "encoded as " << pbt::show(enc));
        charbuff b; f->DecodeTo(b, bufferview(enc.data(), enc.size())); CHECK("decode", cstr(b) == d, "got " << pbt::show(cstr(b)) << " want " << pbt::show(d) << " encoded " << pbt::show(enc));
        std::string out; { StringStreamDevice dev(out); f->BeginDecode(dev); for (auto& c : split(g, enc)) f->DecodeBlock(bufferview(c.data(), c.size())); f->EndDecode(); }
        CHECK("decode-chunks", out == d, "got " << pbt::show(out) << " want " << pbt::show(d) << " encoded " << pbt::show(enc));
    }
}
PROP(C05, chains, 20000, 400000, 20) {
    PdfFilterList fl; unsigned n = 1 + g.size(4); V names = V::arr(); for (unsigned i = 0; i < n; i++) { fl.push_back(g.pick(Enc)); names.a.push_back(V::name(fname(fl.back()))); }
    std::string d = genData(g, 12000); g.trace(show(names), " ", d.size(), " bytes ", pbt::show(d, 200)); if (d.size() > 16 || n > 1) g.nontrivial();
    auto sink = std::make_shared<std::string>(); { auto dev = std::make_shared<StringStreamDevice>(*sink); auto enc = PdfFilterFactory::CreateEncodeStream(dev, fl); for (auto& c : split(g, d)) { enc->Write(c); } }
    std::string r; try { r = decodeStream(V::dict({ { "Filter", names } }), *sink); } catch (SyntaxError& e) { pbt::fail("illegal-encoding", e.msg); } CHECK("other-decoder", r == d, "decoded as " << pbt::show(r));
    auto src = std::make_shared<SpanStreamDevice>(sink->data(), sink->size()); auto dec = PdfFilterFactory::CreateDecodeStream(src, fl, std::vector<const PdfDictionary*>(fl.size(), nullptr)); std::string got = readAll(g, *dec); CHECK("decode", got == d, "got " << pbt::show(got) << " want " << pbt::show(d));
    char c; CHECK("stays-at-end", !dec->Read(c), "data after the end");
}

struct S { PdfObject* o; std::string data; bool inDoc; std::unique_ptr<PdfObject> own; };
static void verify(pbt::Src& g, S& s, const std::string& after) {
    const PdfObject& o = *s.o; auto st = o.GetStream(); CHECK("stream-lost", st != nullptr, after); auto want = [&](const char* how, const std::string& got) { CHECK("content", got == s.data, how << " after " << after << ": got " << pbt::show(got) << " want " << pbt::show(s.data)); };
    V dict = fromObj(o); charbuff raw; st->CopyTo(raw, true); std::string rw = cstr(raw); CHECK_EQ("length", st->GetLength(), rw.size(), after);
    try { CHECK("described", decodeStream(dict, rw) == s.data, "after " << after << " the dictionary " << show(dict) << " does not describe the stored data " << pbt::show(rw)); } catch (SyntaxError& e) { pbt::fail("described", "after " + after + " the stored data is not what " + show(dict) + " says: " + e.msg); }
    V names = V::arr(); for (auto f : const_cast<PdfObjectStream*>(st)->GetFilters()) names.a.push_back(V::name(fname(f))); V have = V::arr(); if (auto f = dict.get("Filter")) { if (f->k == K::Name) have.a.push_back(*f); else have = *f; } CHECK("filter-list", diff(names, have).empty(), "GetFilters " << show(names) << " but /Filter " << show(have) << " after " << after);
    switch (g.draw(7)) {
        case 0: want("GetCopy", cstr(st->GetCopy())); break;
        case 1: want("GetCopySafe", cstr(st->GetCopySafe())); break;
        case 2: { charbuff b(std::string("old")); st->CopyTo(b); want("CopyTo(buffer)", cstr(b)); break; }
        case 3: { charbuff b(std::string("old")); st->CopyToSafe(b); want("CopyToSafe", cstr(b)); break; }
        case 4: { std::string x; StringStreamDevice d(x); st->CopyTo(d); want("CopyTo(stream)", x); break; }
        case 5: { auto in = st->GetInputStream(); want("input stream", readAll(g, in)); break; }
        case 6: { auto in = st->GetInputStream(true); CHECK("raw", readAll(g, in) == rw, after); break; }
        default: { PdfObjectInputStream in; in = st->GetInputStream(); std::string first; char c; if (g.coin() && in.Read(c)) first += c; PdfObjectInputStream in2(std::move(in)); want("moved input stream", first + readAll(g, in2)); break; }
    }
}
PROP(C05, streams, 20000, 400000, 20) {
    // half of the streams come from a file by another producer, with its own filters and parameters
    PdfMemDocument doc; std::string file; std::vector<std::string> foreign; unsigned nf = 1 + g.size(3);
    { FileWriter w(g); w.noise = false; w.header("1.7"); std::map<int64_t, Obj> os; os[1].v = V::dict({ { "Type", V::name("Catalog") }, { "Pages", V::refTo(2) } }); os[2].v = V::dict({ { "Type", V::name("Pages") }, { "Kids", V::arr() }, { "Count", V::integer(0) } });
      for (unsigned i = 0; i < nf; i++) { Obj o; o.hasStream = true; o.v = V::dict({ { "Mark", V::integer(i) } }); std::string d = genData(g, 800);
        switch (g.draw(4)) { case 0: o.raw = d; break; case 1: o.raw = lzwEncode(d, 0, &g); o.v.m["Filter"] = V::arr({ V::name("LZWDecode") }); o.v.m["DecodeParms"] = V::arr({ V::dict({ { "EarlyChange", V::integer(0) } }) }); break; case 2: o.raw = a85Encode(rlEncode(d, &g), &g); o.v.m["Filter"] = V::arr({ V::name("ASCII85Decode"), V::name("RunLengthDecode") }); if (g.coin()) o.v.m["DecodeParms"] = V::arr({ V::null(), V::null() }); break;
          default: { int col = 1 + (int)g.draw(6); d.resize(d.size() / col * col); o.raw = deflateAll(predictorEncode(d, 15, 1, 8, col, &g)); o.v.m["Filter"] = V::name("FlateDecode"); o.v.m["DecodeParms"] = V::dict({ { "Predictor", V::integer(15) }, { "Columns", V::integer(col) } }); } }
        o.v.m["Length"] = V::integer((int64_t)o.raw.size()); os[3 + i] = o; foreign.push_back(d); }
      w.nextFree = 3 + nf; w.revision(os, {}, V::dict({ { "Root", V::refTo(1) }, { "Size", V::integer(3 + nf) } }), Layout{}, true); file = w.out; }
    doc.LoadFromBuffer(bufferview(file.data(), file.size()));
    std::vector<S> ss; for (unsigned i = 0; i < nf; i++) { auto o = doc.GetObjects().GetObject(PdfReference(3 + i, 0)); CHECK("loaded", o && o->HasStream(), "stream " << i << " lost by loading"); ss.push_back({ o, foreign[i], true, nullptr }); g.trace("stream", ss.size() - 1, " foreign ", pbt::show(foreign[i], 60)); }
    for (unsigned i = 0, n = 1 + g.size(2); i < n; i++) { auto& o = doc.GetObjects().CreateDictionaryObject(); o.GetOrCreateStream(); ss.push_back({ &o, "", true, nullptr }); }
    { S s{ nullptr, "", false, std::make_unique<PdfObject>() }; s.own->GetOrCreateStream(); s.o = s.own.get(); ss.push_back(std::move(s)); } ss.reserve(20);
    for (auto& s : ss) verify(g, s, "creation");
    unsigned steps = 1 + g.size(12), interesting = 0;
    for (unsigned k = 0; k < steps; k++) {
        unsigned ai = g.index(ss.size()); S& a = ss[ai]; S& b = ss[g.index(ss.size())]; auto& st = a.o->MustGetStream(); std::string op = "stream" + std::to_string(ai) + ": "; std::string d = genData(g, 3000); bufferview dv(d.data(), d.size());
        PdfFilterList fl; for (unsigned i = 0, n = g.size(3); i < n; i++) fl.push_back(g.pick(Enc));
        { std::string s; StringStreamDevice dev(s); charbuff bb; for (auto& x : ss) if (x.inDoc) x.o->Write(dev, PdfWriteFlags::NoFlateCompress, nullptr, bb); } bool changes = true;
        switch (g.draw(13)) {
            case 0: op += "SetData"; st.SetData(dv); a.data = d; break;
            case 1: op += "SetData raw"; st.SetData(dv, true); a.data = d; break;
            case 2: op += "SetData " + std::to_string(fl.size()) + " filters"; st.SetData(dv, fl); a.data = d; break;
            case 3: { SpanStreamDevice in(dv); op += "SetData from stream"; unsigned w = (unsigned)g.draw(2); if (w == 0) st.SetData(in); else if (w == 1) st.SetData(in, true); else st.SetData(in, fl); a.data = d; break; }
            case 4: case 5: { bool app = g.coin(); unsigned how = (unsigned)g.draw(2); op += std::string(app ? "append " : "write ") + (how == 0 ? "default" : how == 1 ? "filters" : "raw"); interesting += app;
                { PdfObjectOutputStream out = how == 0 ? st.GetOutputStream(app) : how == 1 ? st.GetOutputStream(fl, app) : st.GetOutputStreamRaw(app); bool mv = g.chance(1, 4); auto chunks = split(g, d); size_t i = 0; if (mv) { for (; i < chunks.size() / 2; i++) out.Write(chunks[i]); PdfObjectOutputStream o2; if (g.coin()) o2 = std::move(out); else { PdfObjectOutputStream o3(std::move(out)); o2 = std::move(o3); } for (; i < chunks.size(); i++) o2.Write(chunks[i]); } else for (auto& c : chunks) out.Write(c);
                  if (!mv) CHECK("locked", [&] { try { st.SetData(bufferview("x", 1)); return false; } catch (PdfError&) { return true; } }(), "a stream being written can be set"); }
                a.data = (app ? a.data : "") + d; break; }
            case 6: op += "= stream copy"; st = b.o->MustGetStream(); a.data = b.data; interesting++; break;
            case 7: if (a.o == b.o) continue; op += "= stream move"; st = std::move(b.o->MustGetStream()); a.data = b.data; b.data.clear(); interesting++; break;
            case 8: { if (a.o == b.o) continue; op += "= object copy"; auto keep = a.data; *a.o = *b.o; a.data = b.data; interesting++; break; }
            case 9: { op += "copied to a new object"; changes = false; if (ss.size() > 12) continue; S s{ nullptr, a.data, false, std::make_unique<PdfObject>(*a.o) }; s.o = s.own.get(); ss.push_back(std::move(s)); interesting++; break; }
            case 10: op += "Unwrap"; st.Unwrap(); interesting++; changes = false; break;
            case 11: { op += "read while locked"; auto in = st.GetInputStream(); changes = false; CHECK("locked", [&] { try { st.SetData(dv); return false; } catch (PdfError&) { return true; } }(), "a stream being read can be set"); break; }
            case 12: { op += "moved to a new object"; if (a.inDoc || ss.size() > 12) continue; auto n = std::make_unique<PdfObject>(std::move(*a.own)); a.own = std::move(n); a.o = a.own.get(); break; }
            default: { op += "written"; changes = false; bool comp = g.coin(); auto fl2 = comp ? PdfWriteFlags::None : PdfWriteFlags::NoFlateCompress; std::string out; StringStreamDevice dev(out); charbuff bb; a.o->Write(dev, fl2, nullptr, bb);
                try { Lexer l(out); if (a.inDoc) { l.integer(); l.integer(); CHECK("syntax", l.accept("obj"), out); } V dict = l.value(); CHECK("syntax", l.accept("stream"), pbt::show(out)); size_t p = l.pos; if (out[p] == '\r') p++; p++; auto len = dict.get("Length"); CHECK("written-length", len && len->k == K::Int && p + len->i <= out.size(), show(dict)); std::string raw = out.substr(p, len->i); std::string rest = out.substr(p + len->i); CHECK("written-length", rest.substr(0, 10) == "\nendstream", "stream of /Length " << len->i << " is followed by " << pbt::show(rest)); CHECK("written-data", decodeStream(dict, raw) == a.data, "written data differs; dictionary " << show(dict)); if (comp) CHECK("compressed", dict.get("Filter") != nullptr, "not compressed"); } catch (SyntaxError& e) { pbt::fail("written-illegal", e.msg); } break; }
        }
        g.trace(op, " ", pbt::show(d, 40)); if (changes && a.inDoc) CHECK("not-dirty", a.o->IsDirty(), op << " does not mark the object as modified");
        for (auto& s : ss) verify(g, s, op);
    }
    if (steps >= 4 && interesting) g.nontrivial();
}
