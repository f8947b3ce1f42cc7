// C24: stream devices behave like a byte sequence with a cursor.
#include "refdoc.h"
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/base/PdfStringStream.h>
#include <pdfmm/base/PdfCanvasInputDevice.h>
#include <fstream>
#include <sstream>
#include <locale>
#include <unistd.h>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the history moves the cursor back, reaches the end, or writes over existing bytes";
    pbt::g_assumptions = "standard streams may report the end late, as they know of it after trying to read past it\nfiles are not sought past their end\nwriting to files opened for appending starts at their end";
} } init;
struct Mo { std::string d; size_t p = 0; bool r = true, w = true, fixed = false, std_ = false, seekable = true, null = false; };
static std::string q(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 60)) { if (c > 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, 8, "<%02x>", c); o += b; } } if (s.size() > 60) o += "... (" + std::to_string(s.size()) + " bytes)"; return o; }
static std::string data(pbt::Src& g) { if (g.chance(1, 24)) { size_t n = (size_t)g.range(4090, 4102) * (1 + g.draw(1)); std::string s(n, 0); uint32_t x = (uint32_t)g.draw(255); for (auto& c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); } return s; } return g.bytes(g.chance(1, 3) ? 40 : 8); }
template <typename F> static int tried(F f) { try { f(); return -1; } catch (PdfError& e) { return (int)e.GetError(); } }
// runs one history of operations against the model
static void drive(pbt::Src& g, StreamDevice& dev, Mo& m, const std::string& name) {
    auto state = [&](const char* after) {
        CHECK_EQ(name + "-position", dev.GetPosition(), m.p, "position after " << after); CHECK_EQ(name + "-length", dev.GetLength(), m.d.size(), "length after " << after); CHECK_EQ(name + "-position", dev.GetPosition(), m.p, "position after asking for the length, after " << after);
        if (m.p < m.d.size()) CHECK(name + "-eof", !dev.Eof(), "the device is at its end at " << m.p << " of " << m.d.size() << " after " << after); else if (!m.std_) CHECK(name + "-eof", dev.Eof(), "the device is not at its end after " << after); };
    state("opening"); unsigned n = (unsigned)g.range(1, 24); CHECK_EQ(name + "-can-seek", dev.CanSeek(), m.seekable, "seekable");
    for (unsigned k = 0; k < n; k++) {
        std::string what; size_t left = m.d.size() - m.p; unsigned op = (unsigned)g.draw(10); 
        auto refuses = [&](const char* w, const std::function<void()>& f) { if (op == 99) return; int e = tried(f); CHECK(name + "-refuses", e >= 0, w << " was accepted"); state(w); };
        if (op <= 4 && !m.r) { g.label("read from a device opened for writing"); char b[4]; bool eof; refuses("reading", [&] { switch (op) { case 0: dev.Read(b, 2); break; case 1: dev.Read(b, 2, eof); break; case 2: dev.ReadChar(); break; case 3: dev.Peek(b[0]); break; default: { std::string o; StringStreamDevice od(o); if (g.coin()) dev.CopyTo(od); else dev.CopyTo(od, 3); } } }); continue; }
        if (op >= 5 && op <= 6 && !m.w) { g.label("write to a device opened for reading"); unsigned kind = (unsigned)g.draw(3); refuses("writing", [&] { switch (kind) { case 0: dev.Write('x'); break; case 1: dev.Write("abc", (size_t)3); break; case 2: dev.Write(std::string_view("abc")); break; default: dev.Flush(); } }); continue; }
        switch (op) {
        case 0: { // exactly
            size_t len = g.coin() ? (size_t)g.draw(left) : (size_t)g.draw(20); std::string b(len + 1, '#'); what = "reading exactly " + std::to_string(len); g.trace(what); int e = tried([&] { dev.Read(b.data(), len); }); size_t got = std::min(len, left);
            if (len > left) { g.label("read past the end"); CHECK_EQ(name + "-read-past", e, (int)PdfErrorCode::UnexpectedEOF, what << " with " << left << " left"); } else CHECK(name + "-read-refused", e < 0, what << " with " << left << " left raised " << e);
            CHECK(name + "-read", b.substr(0, got) == m.d.substr(m.p, got) && b[len] == '#', what << " at " << m.p << " gave " << q(b) << " instead of " << q(m.d.substr(m.p, got))); m.p += got; if (got == left && len) { g.nontrivial(); g.label("read to the end"); if (m.d.size()) CHECK(name + "-eof-after-read", dev.Eof(), "no end after " << what); } break; }
        case 1: { size_t len = g.coin() ? (size_t)g.draw(left) : (size_t)g.draw(20); std::string b(len + 1, '#'); bool eof = false; what = "reading up to " + std::to_string(len); g.trace(what); size_t got = dev.Read(b.data(), len, eof), want = std::min(len, left); CHECK_EQ(name + "-read-count", got, want, what << " at " << m.p << " of " << m.d.size());
            CHECK(name + "-read", b.substr(0, got) == m.d.substr(m.p, got) && b[len] == '#', what << " at " << m.p << " gave " << q(b)); m.p += got; if (m.p < m.d.size()) CHECK(name + "-eof-flag", !eof, what << " reports the end with " << left - got << " bytes left"); else if (len) { CHECK(name + "-eof-flag", eof, what << " doesn't report the end"); g.nontrivial(); g.label("read to the end"); } break; }
        case 2: { what = "reading a character"; g.trace(what); char c = '#'; if (g.coin()) { bool ok = dev.Read(c); CHECK_EQ(name + "-char", ok, left > 0, what << " at " << m.p << " of " << m.d.size()); if (!ok) { g.label("no character at the end"); } }
            else { int e = tried([&] { c = dev.ReadChar(); }); CHECK_EQ(name + "-char", e < 0, left > 0, what << " at " << m.p << " of " << m.d.size() << ": " << e); } if (left) { CHECK(name + "-char", c == m.d[m.p], what << " gave " << (int)c); m.p++; } break; }
        case 3: { what = "peeking"; g.trace(what); char c = '#'; bool ok = dev.Peek(c); CHECK_EQ(name + "-peek", ok, left > 0, what << " at " << m.p << " of " << m.d.size()); CHECK(name + "-peek", c == (left ? m.d[m.p] : 0), what << " gave " << (int)c); break; }
        case 4: { std::string o = g.coin() ? "xy" : "", want = o; StringStreamDevice od(o); if (g.coin()) { what = "copying the rest"; g.trace(what); dev.CopyTo(od); want += m.d.substr(m.p); m.p = m.d.size(); } else { size_t len = g.coin() ? (size_t)g.draw(left) : (size_t)g.draw(9000); what = "copying " + std::to_string(len); g.trace(what); dev.CopyTo(od, len); want += m.d.substr(m.p, len); m.p += std::min(len, left); } CHECK(name + "-copy", o == want, what << " gave " << q(o) << " instead of " << q(want)); g.label("copied"); break; }
        case 5: case 6: { std::string s = data(g); if (m.fixed && g.chance(3, 4)) s = s.substr(0, left); unsigned kind = (unsigned)g.draw(3); if (kind == 0) { s = s.substr(0, 1); if (s.empty()) s = "q"; } what = "writing " + std::to_string(s.size()) + " bytes"; g.trace(what, " ", q(s));
            int e = tried([&] { if (kind == 0) dev.Write(s[0]); else if (kind == 1) dev.Write(s.data(), s.size()); else { dev.Write(std::string_view(s)); if (kind == 3) dev.Flush(); } });
            if (m.fixed && s.size() > left) { g.label("written past the end of a span"); CHECK_EQ(name + "-write-past", e, (int)PdfErrorCode::ValueOutOfRange, what << " with " << left << " left"); break; } CHECK(name + "-write", e < 0, what << " at " << m.p << " of " << m.d.size() << " raised " << e);
            if (left && s.size()) { g.nontrivial(); g.label("written over existing bytes"); } if (m.null) s.assign(s.size(), 0); if (m.p + s.size() > m.d.size()) m.d.resize(m.p + s.size()); m.d.replace(m.p, s.size(), s); m.p += s.size(); break; }
        default: { unsigned dir = (unsigned)g.draw(3); size_t to = (size_t)g.draw(m.d.size()); bool bad = g.chance(1, 6); int64_t off = 0; what = "seeking"; if (!m.seekable) { g.label("seek refused"); CHECK(name + "-seek", tried([&] { dev.Seek(0); }) >= 0, "seeking was accepted"); CHECK(name + "-seek", tried([&] { dev.Seek(0, SeekDirection::End); }) >= 0, "seeking was accepted"); break; }
            switch (dir) { case 0: case 1: off = bad ? (m.std_ ? -(int64_t)g.range(1, 9) : g.coin() ? -(int64_t)g.range(1, 9) : (int64_t)m.d.size() + g.range(1, 9)) : (int64_t)to; break; case 2: off = bad ? (m.std_ || g.coin() ? -(int64_t)m.p - g.range(1, 9) : (int64_t)left + g.range(1, 9)) : (int64_t)to - (int64_t)m.p; break; default: off = bad ? (m.std_ || g.coin() ? -(int64_t)m.d.size() - g.range(1, 9) : g.range(1, 9)) : (int64_t)to - (int64_t)m.d.size(); }
            if (dir == 0 && bad && off < 0 && !m.std_) off = (int64_t)m.d.size() + 1;
            static const char* dn[] = { "the start", "the start", "here", "the end" }; what = "seeking " + std::to_string(off) + " from " + dn[dir]; g.trace(what);
            int e = tried([&] { if (dir == 0) dev.Seek((size_t)off); else dev.Seek((ssize_t)off, dir == 1 ? SeekDirection::Begin : dir == 2 ? SeekDirection::Current : SeekDirection::End); });
            if (bad) { g.label("seek out of bounds refused"); CHECK(name + "-seek-bounds", e >= 0, what << " at " << m.p << " of " << m.d.size() << " was accepted"); } else { CHECK(name + "-seek", e < 0, what << " at " << m.p << " of " << m.d.size() << " raised " << e); if (to < m.p) { g.nontrivial(); g.label("seek back"); } m.p = to; } break; }
        }
        state(what.c_str());
    }
}
PROP(C24, devices, 60000, 1000000, 20) {
    Mo m; m.d = data(g); std::string init = m.d, buf; unsigned kind = (unsigned)g.draw(13); g.trace("kind ", kind, " initial ", q(init)); auto acc = [&] { DeviceAccess a = g.pick<DeviceAccess>({ DeviceAccess::Read, DeviceAccess::Write, DeviceAccess::ReadWrite }); m.r = a != DeviceAccess::Write; m.w = a != DeviceAccess::Read; return a; };
    switch (kind) {
    case 0: { g.label("string"); buf = init; StringStreamDevice d(buf); m.p = init.size(); drive(g, d, m, "string"); CHECK("string-result", buf == m.d, q(buf) << " instead of " << q(m.d)); break; }
    case 1: { g.label("vector"); std::vector<char> v(init.begin(), init.end()); bool ate = g.coin(); VectorStreamDevice d(v, acc(), ate); m.p = ate ? init.size() : 0; drive(g, d, m, "vector"); CHECK("vector-result", std::string(v.data(), v.size()) == m.d, "bytes of the vector"); break; }
    case 2: { g.label("buffer"); charbuff v; v = bufferview(init.data(), init.size()); bool ate = g.coin(); BufferStreamDevice d(v, acc(), ate); m.p = ate ? init.size() : 0; drive(g, d, m, "buffer"); CHECK("buffer-result", std::string(v.data(), v.size()) == m.d, "bytes of the buffer"); break; }
    case 3: { g.label("constant container"); const std::string c = init; StringStreamDevice d(c); m.w = false; drive(g, d, m, "const"); CHECK("const-result", c == init, "a container that is only read has changed"); break; }
    case 4: { g.label("read only span"); m.w = false; m.fixed = true; std::unique_ptr<SpanStreamDevice> d; const std::string c = init; switch (g.draw(3)) { case 0: d.reset(new SpanStreamDevice(c)); break; case 1: d.reset(new SpanStreamDevice(std::string_view(c))); break; case 2: d.reset(new SpanStreamDevice(bufferview(c.data(), c.size()))); break; default: d.reset(new SpanStreamDevice(c.data(), c.size())); } drive(g, *d, m, "view"); CHECK("view-result", c == init, "a span that is only read has changed"); break; }
    case 5: { g.label("span"); m.fixed = true; buf = init; std::string guard = init; std::unique_ptr<SpanStreamDevice> d; if (g.coin()) d.reset(new SpanStreamDevice(buf, acc())); else { char* p = buf.data(); d.reset(new SpanStreamDevice(p, buf.size(), acc())); } drive(g, *d, m, "span"); CHECK("span-result", buf == m.d && buf.size() == init.size(), q(buf) << " instead of " << q(m.d)); break; }
    case 6: { g.label("input stream"); m.w = false; m.std_ = true; std::istringstream s(init); StandardStreamDevice d((std::istream&)s); drive(g, d, m, "istream"); break; }
    case 7: { g.label("output stream"); m.r = false; m.std_ = true; m.d.clear(); std::ostringstream s; StandardStreamDevice d((std::ostream&)s); drive(g, d, m, "ostream"); CHECK("ostream-result", s.str() == m.d, q(s.str()) << " instead of " << q(m.d)); break; }
    case 8: { g.label("string stream"); m.std_ = true; std::stringstream s(init); StandardStreamDevice d((std::iostream&)s); drive(g, d, m, "iostream"); CHECK("iostream-result", s.str() == m.d, q(s.str()) << " instead of " << q(m.d)); break; }
    case 9: { g.label("file stream"); m.std_ = true; auto p = scratch("dev.bin"); spit(p, init); { std::fstream s(p, std::ios::in | std::ios::out | std::ios::binary); StandardStreamDevice d((std::iostream&)s); drive(g, d, m, "fstream"); } CHECK("fstream-result", slurp(p) == m.d, q(slurp(p)) << " instead of " << q(m.d)); break; }
    case 10: { g.label("null device"); m.null = true; m.d.clear(); m.seekable = false; NullStreamDevice d; drive(g, d, m, "null"); break; }
    default: { // files
        m.std_ = true; auto p = scratch("file.bin"); bool there = g.chance(3, 4); unlink(p.c_str()); if (there) spit(p, init); else m.d.clear(); FileMode mode = (FileMode)g.range(1, 6); DeviceAccess a = acc(); bool dflt = g.chance(1, 4), one = g.chance(1, 8); if (dflt) a = mode == FileMode::Append ? DeviceAccess::Write : DeviceAccess::ReadWrite; if (one) { mode = FileMode::Open; a = DeviceAccess::Read; } m.r = a != DeviceAccess::Write; m.w = a != DeviceAccess::Read;
        static const char* mn[] = { "", "CreateNew", "Create", "Open", "OpenOrCreate", "Truncate", "Append" }; g.label(std::string("file: ") + mn[(int)mode]); g.trace("mode ", mn[(int)mode], " access ", (int)a, there ? " existing" : " missing");
        bool bad = (mode == FileMode::CreateNew && there) || ((mode == FileMode::Open || mode == FileMode::Truncate || mode == FileMode::Append) && !there) || (a == DeviceAccess::Read && mode != FileMode::Open) || (mode == FileMode::Append && a != DeviceAccess::Write);
        std::unique_ptr<FileStreamDevice> d; int e = tried([&] { if (one) d.reset(new FileStreamDevice(p)); else if (dflt) d.reset(new FileStreamDevice(p, mode)); else d.reset(new FileStreamDevice(p, mode, a)); });
        if (bad) { g.label("opening refused"); CHECK("file-refused", e >= 0, mn[(int)mode] << " with access " << (int)a << " of " << (there ? "an existing" : "a missing") << " file was accepted"); if (there) CHECK("file-untouched", slurp(p) == init, "a refused opening changed the file"); else { std::ifstream f(p); CHECK("file-untouched", !f, "a refused opening made a file"); } break; }
        CHECK("file-open", e < 0, mn[(int)mode] << " with access " << (int)a << " of " << (there ? "an existing" : "a missing") << " file raised " << e); if (mode == FileMode::Create || mode == FileMode::Truncate) m.d.clear(); if (mode == FileMode::Append) m.p = m.d.size(); CHECK_EQ("file-path", d->GetFilepath(), p, "path of the file");
        drive(g, *d, m, "file"); if (g.coin()) { d->Close(); g.label("closed"); CHECK("file-result", slurp(p) == m.d, q(slurp(p)) << " instead of " << q(m.d)); } d.reset(); CHECK("file-result", slurp(p) == m.d, q(slurp(p)) << " instead of " << q(m.d)); break; }
    }
}
// what is formatted doesn't depend on the locale
struct Odd : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } std::string do_truename() const override { return "vero"; } std::string do_falsename() const override { return "falso"; } };
struct Loc { std::locale old; Loc(bool on) : old() { if (on) std::locale::global(std::locale(std::locale::classic(), new Odd)); } ~Loc() { std::locale::global(old); } };
PROP(C24, formatted, 20000, 400000, 10) {
    bool odd = g.coin(); if (odd) g.label("with a foreign locale"); Loc loc(odd); PdfStringStream s; std::string want; unsigned n = (unsigned)g.range(1, 30); unsigned prec = 6; bool nt = false;
    for (unsigned k = 0; k < n; k++) switch (g.draw(8)) {
        case 0: { int64_t v = g.chance(1, 3) ? (int64_t)(g.draw(UINT32_MAX) * 0x100000001ull + g.draw(UINT32_MAX)) : g.range(-100000, 100000); s << v; want += std::to_string(v); nt |= v > 999 || v < -999; break; }
        case 1: { unsigned v = (unsigned)g.draw(1u << g.draw(31)); s << v; want += std::to_string(v); break; }
        case 2: { std::string t = g.bytes(12); s << std::string_view(t); want += t; break; }
        case 3: { char c = (char)g.draw(255); s << c; want += c; break; }
        case 4: { s << "lit"; want += "lit"; break; }
        case 5: { double v = g.chance(1, 4) ? (double)g.range(-1000, 1000) : (double)g.range(-4000000, 4000000) / 1024; if (g.coin()) s << v; else { float f = (float)v; s << f; v = f; } std::string b; { std::string cur(s.GetString()); CHECK("format-prefix", cur.compare(0, want.size(), want) == 0, "what was written before has changed"); b = cur.substr(want.size()); }
            char* end = nullptr; size_t digits = 0, dots = 0; bool shape = !b.empty(); for (size_t i = 0; i < b.size(); i++) { if (b[i] == '-' && i == 0) continue; if (b[i] == '.') dots++; else if (b[i] >= '0' && b[i] <= '9') digits++; else shape = false; } (void)end; CHECK("format-real", shape && digits && dots <= 1, "the real " << v << " is written as " << q(b)); double r = 0, f = 0; bool neg = b[0] == '-', frac = false; for (char c : b) { if (c == '.') { frac = true; f = 1; } else if (c != '-') { r = r * 10 + (c - '0'); if (frac) f *= 10; } } if (frac) r /= f; if (neg) r = -r; CHECK("format-real", std::fabs(r - v) <= 0.5001 * std::pow(10.0, -(double)prec) + std::fabs(v) * 1e-12, "the real " << v << " is written as " << b << " with precision " << prec); want += b; nt = true; break; }
        case 6: { prec = (unsigned)g.range(0, 9); s.SetPrecision((unsigned short)prec); CHECK_EQ("precision", (unsigned)s.GetPrecision(), prec, "precision"); break; }
        case 7: { s << std::endl; want += '\n'; break; }
        default: if (g.chance(1, 4)) { g.label("cleared"); if (g.coin()) { std::string t = s.TakeString(); CHECK("taken", t == want, q(t) << " instead of " << q(want)); } else s.Clear(); want.clear(); CHECK_EQ("cleared-size", s.GetSize(), 0u, "size after clearing"); } else { bool v = g.coin(); s << (int)v; want += v ? "1" : "0"; }
    }
    { uint64_t x = g.draw(UINT32_MAX) * 0x100000001ull + g.draw(UINT32_MAX); if (g.coin()) x = g.coin() ? (uint64_t)-1 : (uint64_t)1 << 63; x >>= 8 * g.pick<unsigned>({ 0, 0, 4, 6, 7 }); std::string t = "old"; auto one = [&](auto v) { utls::FormatTo(t, v); CHECK("format-integer", t == std::to_string(v), "the integer " << +v << " is written as " << q(t)); }; one((int64_t)x); one(x); one((int)x); one((unsigned)x); one((short)x); one((unsigned short)x); one((signed char)x); one((unsigned char)x); }
    CHECK("formatted", s.GetString() == want, q(std::string(s.GetString())) << " instead of " << q(want)); CHECK_EQ("formatted-size", (size_t)s.GetSize(), want.size(), "size"); if (nt || want.size() > 16) g.nontrivial();
}
PROP(C24, locale, 2000, 100000, 10) {
    // values and contents are written the same in every locale
    Opt o; M m = gen(g, o); V v = genValue(g, m, GenOpt(), false); std::string a, b; auto ob = toObj(v); ob.GetVariant().ToString(a); { Loc l(true); ob.GetVariant().ToString(b); } CHECK("locale-value", a == b, q(a) << " becomes " << q(b)); if (a.size() > 20) g.nontrivial(); { Loc l(true); auto d = diff(parseMm(a), v, {}); CHECK("locale-parse", d.empty(), "read in another locale: " << d); }
    double x[8]; for (auto& c : x) c = (double)g.range(-4000000, 4000000) / 64; std::string f[2];
    for (int i = 0; i < 2; i++) { Loc l(i == 1); PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, std::fabs(x[6]), std::fabs(x[7]))); PdfPainter p; p.SetCanvas(page); p.DrawLine(x[0], x[1], x[2], x[3]); p.GetGraphicsState().SetLineWidth(std::fabs(x[4])); p.GetGraphicsState().SetFillColor(PdfColor(0.25, 0.5, 1)); p.Rectangle(PdfRect(x[4], x[5], 1000.5, 2000)); p.Stroke(); p.FinishDrawing(); charbuff cb; page.GetContents()->CopyTo(cb); f[i] = std::string(cb.data(), cb.size()) + page.GetObject().GetDictionary().MustFindKey("MediaBox").ToString(); }
    CHECK("locale-contents", f[0] == f[1], q(f[0]) << " becomes " << q(f[1]));
}
// the contents of a page read as one sequence
PROP(C24, contents, 8000, 200000, 10) {
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); PdfArray arr; Mo m; m.w = false; m.seekable = false; bool first = true; unsigned n = (unsigned)g.draw(4);
    for (unsigned i = 0; i < n; i++) { std::string s = g.chance(1, 4) ? "" : data(g); auto& o = doc.GetObjects().CreateDictionaryObject(); if (g.chance(3, 4)) { if (g.coin()) o.GetOrCreateStream().SetData(bufferview(s.data(), s.size())); else o.GetOrCreateStream().SetData(bufferview(s.data(), s.size()), { PdfFilterType::ASCIIHexDecode }); } else s.clear(); arr.Add(o.GetIndirectReference()); g.trace("stream ", q(s)); if (s.empty()) { g.label("empty stream"); continue; } if (!first) { m.d += '\n'; g.nontrivial(); g.label("several streams"); } first = false; m.d += s; }
    page.GetObject().GetDictionary().AddKey("Contents", n == 1 && g.coin() ? PdfObject(arr[0]) : PdfObject(arr)); std::string f = save(doc); std::deque<std::string> files{ f }; auto d2 = loadMm(files.back(), 0); auto& pg = d2->GetPages().GetPageAt(0);
    PdfCanvasInputDevice dev(pg); unsigned steps = (unsigned)g.draw(10);
    auto check = [&](const std::string& b, const char* what) { CHECK("contents", b == m.d.substr(m.p, b.size()), what << " at " << m.p << " gave " << q(b) << " instead of " << q(m.d.substr(m.p, b.size()))); m.p += b.size(); };
    for (unsigned i = 0; i < steps; i++) { size_t left = m.d.size() - m.p; switch (g.draw(3)) {
        case 0: { size_t len = 1 + (size_t)(g.coin() ? g.draw(left) : g.draw(20)); std::string b(len, '#'); bool eof = false; size_t r = dev.Read(b.data(), len, eof); CHECK_EQ("contents-count", r, std::min(len, left), "reading " << len << " at " << m.p << " of " << m.d.size()); check(b.substr(0, r), "reading"); if (m.p < m.d.size()) CHECK("contents-eof", !eof && !dev.Eof(), "the end is reported with " << m.d.size() - m.p << " left"); break; }
        case 1: { char c = '#'; bool ok = dev.Read(c); CHECK_EQ("contents-char", ok, left > 0, "reading a character at " << m.p << " of " << m.d.size()); if (ok) check(std::string(1, c), "a character"); break; }
        case 2: { char c = '#'; bool ok = dev.Peek(c); CHECK_EQ("contents-peek", ok, left > 0, "peeking at " << m.p << " of " << m.d.size()); if (ok) CHECK("contents-peek", c == m.d[m.p], "peeked " << (int)c << " at " << m.p << " instead of " << (int)m.d[m.p]); break; }
        default: { std::string o; StringStreamDevice od(o); size_t len = 1 + (size_t)g.draw(left); dev.CopyTo(od, len); CHECK_EQ("contents-copied", o.size(), std::min(len, left), "copying " << len << " at " << m.p << " of " << m.d.size()); check(o, "copying"); } } }
    std::string o; StringStreamDevice od(o); dev.CopyTo(od); CHECK("contents-rest", o == m.d.substr(m.p), "the rest at " << m.p << " is " << q(o) << " instead of " << q(m.d.substr(m.p))); bool eof = false; char c; CHECK("contents-end", dev.Eof() || dev.Read(&c, 1, eof) == 0, "bytes after the end");
}
