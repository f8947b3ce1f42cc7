#include "refmm.h"
using namespace mm;
static struct Quiet { Quiet() { if (!getenv("VERIF_LOG")) mm::PdfCommon::SetMaxLoggingSeverity(mm::PdfLogSeverity::None); } } s_quiet;
namespace refmm {
std::string keyRaw(const PdfName& n) { return n.GetRawData(); }
V fromVar(const PdfVariant& v) {
    switch (v.GetDataType()) {
        case PdfDataType::Null: return V::null();
        case PdfDataType::Bool: return V::boolean(v.GetBool());
        case PdfDataType::Number: return V::integer(v.GetNumber());
        case PdfDataType::Real: return V::real(v.GetReal());
        case PdfDataType::String: return V::str(strRaw(v.GetString()), v.GetString().IsHex());
        case PdfDataType::Name: return V::name(v.GetName().GetRawData());
        case PdfDataType::Reference: return V::refTo(v.GetReference().ObjectNumber(), v.GetReference().GenerationNumber());
        case PdfDataType::Array: { V r = V::arr(); for (auto& x : v.GetArray()) r.a.push_back(fromObj(x)); return r; }
        case PdfDataType::Dictionary: { V r = V::dict(); for (auto& x : v.GetDictionary()) r.m[x.first.GetRawData()] = fromObj(x.second); return r; }
        default: pbt::fail("datatype", std::string("unexpected data type ") + v.GetDataTypeString());
    }
}
V fromObj(const PdfObject& o) { return fromVar(o.GetVariant()); }
PdfObject toObj(const V& v) {
    switch (v.k) {
        case K::Null: return PdfObject(PdfVariant());
        case K::Bool: return PdfObject(v.b);
        case K::Int: return PdfObject((int64_t)v.i);
        case K::Real: return PdfObject(v.d);
        case K::Str: return PdfObject(strOf(v.s, v.hex));
        case K::Name: return PdfObject(nameOf(v.s));
        case K::Ref: return PdfObject(PdfReference((uint32_t)v.i, (uint16_t)v.gen));
        case K::Arr: { PdfArray a; for (auto& x : v.a) a.Add(toObj(x)); return PdfObject(std::move(a)); }
        case K::Dict: { PdfDictionary d; for (auto& x : v.m) d.AddKey(nameOf(x.first), toObj(x.second)); return PdfObject(std::move(d)); }
    }
    return PdfObject();
}
V parseMm(const std::string& t, bool* ok) {
    SpanStreamDevice dev(t.data(), t.size()); PdfTokenizer tok; PdfVariant v;
    bool r = tok.TryReadNextVariant(dev, v);
    if (ok) *ok = r; else if (!r) pbt::fail("parse-failed", "pdfmm could not read a value from: " + pbt::show(t));
    return r ? fromVar(v) : V();
}
std::string writeMm(const PdfVariant& v, PdfWriteFlags f) {
    std::string s; StringStreamDevice dev(s); charbuff b; v.Write(dev, f, PdfStatefulEncrypt(), b); return s;
}
std::string streamData(const PdfObject& o) {
    auto st = o.GetStream(); if (!st) return {};
    charbuff b; st->CopyTo(b); return std::string(b.data(), b.size());
}
std::map<int64_t, Snap> snapshot(PdfMemDocument& d, bool decode) {
    std::map<int64_t, Snap> r;
    for (auto o : d.GetObjects()) {
        Snap s; s.v = fromObj(*o); s.gen = o->GetIndirectReference().GenerationNumber(); s.hasStream = o->HasStream();
        if (s.hasStream && decode) s.data = streamData(*o);
        r[o->GetIndirectReference().ObjectNumber()] = std::move(s);
    }
    return r;
}
std::string save(PdfMemDocument& d, PdfSaveOptions o) { std::string s; StringStreamDevice dev(s); d.Save(dev, o); return s; }
}
