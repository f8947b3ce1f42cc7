// Conversions between the reference model and pdfmm, and small helpers shared by harnesses.
#pragma once
#include <pdfmm/pdfmm.h>
#include "ref.h"

namespace refmm {
using ref::V; using ref::K;

inline std::string strRaw(const mm::PdfString& s) {
    if (s.GetState() == mm::PdfStringState::RawBuffer) return s.GetRawData();
    return ref::textBytes(s.GetString());
}
V fromVar(const mm::PdfVariant& v);
V fromObj(const mm::PdfObject& o);          // value only, not the stream
inline mm::PdfName nameOf(const std::string& raw) { return mm::PdfName::FromRaw(mm::bufferview(raw.data(), raw.size())); }
inline mm::PdfString strOf(const std::string& raw, bool hex) { return mm::PdfString::FromRaw(mm::bufferview(raw.data(), raw.size()), hex); }
mm::PdfObject toObj(const V& v);
std::string keyRaw(const mm::PdfName& n);
// parse a single value with pdfmm's tokenizer
V parseMm(const std::string& text, bool* ok = nullptr);
std::string writeMm(const mm::PdfVariant& v, mm::PdfWriteFlags f = mm::PdfWriteFlags::None);
// the whole object graph held by a document (object number -> object incl. decoded/raw stream)
struct Snap { V v; bool hasStream = false; std::string data; uint32_t gen = 0; };
std::map<int64_t, Snap> snapshot(mm::PdfMemDocument& d, bool decode = true);
std::string save(mm::PdfMemDocument& d, mm::PdfSaveOptions o = mm::PdfSaveOptions::None);
// decoded stream content through pdfmm
std::string streamData(const mm::PdfObject& o);
}
