// C23: images keep their pixels: what an image file shows is what the image object in the saved document shows and what decoding returns.
#include "refdoc.h"
#include <zlib.h>
#include <cmath>
#include <cstdio>
extern "C" {
#include <jpeglib.h>
#include <tiffio.h>
}
#include <unistd.h>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the image has at least two different pixels";
    pbt::g_assumptions = "images have at most 40 x 24 pixels\n16 bit PNG samples are reduced to their high byte\nTIFF images are stripped, with one image per file and the first row on top\nsoft masks have the size of their image\ncolour management is out of scope: gamma and profiles of image files are ignored\nCMYK, indexed and 1 bit images are checked in the saved document only, since the library does not decode them\nmalformed files: a PdfError or an image";
    TIFFSetErrorHandler(nullptr); TIFFSetWarningHandler(nullptr);
} } init;
typedef std::array<int, 4> Px; // RGBA
struct Img { unsigned w = 0, h = 0; std::vector<Px> px; bool cmyk = false; bool gray = false; Px& at(unsigned x, unsigned y) { return px[(size_t)y * w + x]; } };
static bool varied(const Img& i) { for (auto& p : i.px) if (p != i.px[0]) return true; return false; }
static void dims(pbt::Src& g, unsigned& w, unsigned& h) { w = 1 + (unsigned)g.draw(g.pick({ 3, 9, 39 })); h = 1 + (unsigned)g.draw(g.pick({ 3, 9, 23 })); }
static void be(std::string& s, uint32_t v) { for (int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); }
// ---- PNG ----
static std::string png(pbt::Src& g, Img& out) {
    unsigned w, h; dims(g, w, h); int type = g.pick({ 0, 2, 3, 4, 6 }); int depth = type == 0 ? g.pick({ 8, 1, 2, 4, 16 }) : type == 3 ? g.pick({ 8, 1, 2, 4 }) : g.pick({ 8, 8, 16 });
    unsigned ch = type == 0 || type == 3 ? 1 : type == 2 ? 3 : type == 4 ? 2 : 4, max = (1u << depth) - 1; bool inter = g.chance(1, 4), trns = type != 4 && type != 6 && g.chance(1, 3);
    unsigned colors = type == 3 ? 1 + (unsigned)g.draw(std::min(max, 40u)) : 0; std::vector<Px> pal; std::string plte, tr; for (unsigned i = 0; i < colors; i++) { Px p{ (int)g.draw(255), (int)g.draw(255), (int)g.draw(255), 255 }; for (int k = 0; k < 3; k++) plte += (char)p[k]; pal.push_back(p); }
    unsigned tv[3] = { 0, 0, 0 }; std::vector<unsigned> few; for (int i = 0; i < 4; i++) few.push_back((unsigned)g.draw(type == 3 ? colors - 1 : max));
    if (trns) { if (type == 3) { size_t n = 1 + g.index(colors); for (size_t i = 0; i < n; i++) { pal[i][3] = (int)g.draw(255); tr += (char)pal[i][3]; } } else for (unsigned i = 0; i < ch; i++) { tv[i] = few[g.index(4)]; tr += (char)(tv[i] >> 8); tr += (char)tv[i]; } }
    std::vector<unsigned> s((size_t)w * h * ch); bool palFew = g.coin(); for (auto& x : s) x = palFew ? few[g.index(4)] : (unsigned)g.draw(type == 3 ? colors - 1 : max);
    out.w = w; out.h = h; out.px.clear(); auto to8 = [&](unsigned v) { return depth == 16 ? (int)(v >> 8) : depth == 8 ? (int)v : (int)(v * 255 / max); };
    for (size_t i = 0; i < (size_t)w * h; i++) { auto p = &s[i * ch]; Px x; if (type == 3) x = pal[p[0]]; else if (type == 0 || type == 4) { int v = to8(p[0]); x = { v, v, v, type == 4 ? to8(p[1]) : trns && p[0] == tv[0] ? 0 : 255 }; } else x = { to8(p[0]), to8(p[1]), to8(p[2]), type == 6 ? to8(p[3]) : trns && p[0] == tv[0] && p[1] == tv[1] && p[2] == tv[2] ? 0 : 255 }; out.px.push_back(x); }
    // rows
    std::string raw; auto pass = [&](unsigned x0, unsigned y0, unsigned dx, unsigned dy) {
        unsigned pw = x0 < w ? (w - x0 + dx - 1) / dx : 0, ph = y0 < h ? (h - y0 + dy - 1) / dy : 0; if (!pw || !ph) return; size_t rb = ((size_t)pw * ch * depth + 7) / 8, bpp = std::max<size_t>(1, ch * depth / 8); std::string prev(rb, 0);
        for (unsigned y = 0; y < ph; y++) {
            std::string row(rb, 0); size_t bit = 0; for (unsigned x = 0; x < pw; x++) for (unsigned c = 0; c < ch; c++) { unsigned v = s[((size_t)(y0 + y * dy) * w + x0 + x * dx) * ch + c]; if (depth == 16) { row[bit / 8] = (char)(v >> 8); row[bit / 8 + 1] = (char)v; } else row[bit / 8] |= (char)(v << (8 - depth - bit % 8)); bit += depth; }
            int f = (int)g.draw(4); raw += (char)f; for (size_t i = 0; i < rb; i++) { int a = i >= bpp ? (unsigned char)row[i - bpp] : 0, b = (unsigned char)prev[i], c = i >= bpp ? (unsigned char)prev[i - bpp] : 0, p = a + b - c, pa = std::abs(p - a), pb = std::abs(p - b), pc = std::abs(p - c); int q = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : pa <= pb && pa <= pc ? a : pb <= pc ? b : c; raw += (char)((unsigned char)row[i] - q); }
            prev = row; } };
    if (inter) { static const unsigned a[7][4] = { {0,0,8,8},{4,0,8,8},{0,4,4,8},{2,0,4,4},{0,2,2,4},{1,0,2,2},{0,1,1,2} }; for (auto& p : a) pass(p[0], p[1], p[2], p[3]); } else pass(0, 0, 1, 1);
    std::string f = "\x89PNG\r\n\x1a\n"; auto chunk = [&](const char* t, const std::string& d) { be(f, (uint32_t)d.size()); std::string b = t + d; f += b; be(f, (uint32_t)crc32(0, (const Bytef*)b.data(), (uInt)b.size())); };
    std::string ih; be(ih, w); be(ih, h); ih += (char)depth; ih += (char)type; ih += '\0'; ih += '\0'; ih += (char)inter; chunk("IHDR", ih);
    if (g.chance(1, 6)) chunk("tEXt", std::string("Title\0x", 7)); if (g.chance(1, 8)) chunk("gAMA", std::string("\0\0\xb1\x8f", 4)); if (g.chance(1, 8)) chunk("abCd", "zz");
    if (colors) chunk("PLTE", plte); if (trns) chunk("tRNS", tr); std::string z = deflateAll(raw, (int)g.draw(9)); size_t n = g.chance(1, 4) ? 1 + g.draw(3) : 1, at = 0; for (size_t i = 0; i < n; i++) { size_t k = i + 1 == n ? z.size() - at : g.draw(z.size() - at); chunk("IDAT", z.substr(at, k)); at += k; }
    chunk("IEND", ""); out.gray = (type == 0 || type == 4); g.trace("PNG ", w, "x", h, " type ", type, " depth ", depth, inter ? " interlaced" : "", trns ? " tRNS" : "", " colors ", colors); g.label("PNG type " + std::to_string(type)); return f;
}
// ---- TIFF ----
static std::string tiff(pbt::Src& g, Img& out, const std::string& path) {
    unsigned w, h; dims(g, w, h); int kind = (int)g.draw(8); // 0 black 1, 1 black 8, 2 black 16, 3 white 1, 4 white 8, 5 white 16, 6 RGB, 7 CMYK, 8 palette
    int bps = kind == 0 || kind == 3 ? 1 : kind == 2 || kind == 5 ? 16 : kind == 8 ? g.pick({ 8, 4, 2, 1 }) : 8, spp = kind == 6 ? 3 : kind == 7 ? 4 : 1; bool fax = bps == 1 && kind != 8 && g.coin(); int comp = fax ? g.pick({ COMPRESSION_CCITTFAX4, COMPRESSION_CCITTFAX3 }) : g.pick({ COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_PACKBITS, COMPRESSION_ADOBE_DEFLATE });
    TIFF* t = TIFFOpen(path.c_str(), g.coin() ? "wl" : "wb"); if (!t) return ""; unsigned rps = 1 + (unsigned)g.draw(h);
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w); TIFFSetField(t, TIFFTAG_IMAGELENGTH, h); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, bps); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, spp); TIFFSetField(t, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG); TIFFSetField(t, TIFFTAG_COMPRESSION, comp); TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, rps);
    TIFFSetField(t, TIFFTAG_PHOTOMETRIC, kind < 3 ? PHOTOMETRIC_MINISBLACK : kind < 6 ? PHOTOMETRIC_MINISWHITE : kind == 6 ? PHOTOMETRIC_RGB : kind == 7 ? PHOTOMETRIC_SEPARATED : PHOTOMETRIC_PALETTE); if (g.coin()) TIFFSetField(t, TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT); if (g.coin()) { TIFFSetField(t, TIFFTAG_XRESOLUTION, 72.0); TIFFSetField(t, TIFFTAG_YRESOLUTION, 72.0); TIFFSetField(t, TIFFTAG_RESOLUTIONUNIT, RESUNIT_INCH); }
    if (comp == COMPRESSION_LZW && bps == 8 && g.coin()) TIFFSetField(t, TIFFTAG_PREDICTOR, PREDICTOR_HORIZONTAL); std::vector<uint16_t> pal[3]; if (kind == 8) { for (auto& p : pal) for (int i = 0; i < 1 << bps; i++) p.push_back((uint16_t)(g.draw(255) * 257)); TIFFSetField(t, TIFFTAG_COLORMAP, pal[0].data(), pal[1].data(), pal[2].data()); }
    out.w = w; out.h = h; out.px.clear(); out.gray = kind < 6; out.cmyk = kind == 7; std::vector<int> few; for (int i = 0; i < 3; i++) few.push_back((int)g.draw((1u << bps) - 1)); bool isFew = g.coin();
    for (unsigned y = 0; y < h; y++) {
        std::string row(((size_t)w * bps * spp + 7) / 8, 0); for (unsigned x = 0; x < w; x++) { int v[4] = { 0, 0, 0, 255 }; for (int c = 0; c < spp; c++) { v[c] = isFew ? few[g.index(3)] : (int)g.draw((1u << bps) - 1); size_t bit = ((size_t)x * spp + c) * bps; if (bps == 16) { uint16_t k = (uint16_t)v[c]; memcpy(&row[bit / 8], &k, 2); } else row[bit / 8] |= (char)(v[c] << (8 - bps - bit % 8)); }
            Px p; if (kind < 6) { int s = bps == 1 ? v[0] * 255 : bps == 16 ? v[0] >> 8 : v[0]; if (kind >= 3) s = bps == 16 ? (65535 - v[0]) >> 8 : 255 - s; p = { s, s, s, 255 }; } else if (kind == 8) p = { pal[0][v[0]] >> 8, pal[1][v[0]] >> 8, pal[2][v[0]] >> 8, 255 }; else p = { v[0], v[1], v[2], kind == 7 ? v[3] : 255 }; out.px.push_back(p); }
        TIFFWriteScanline(t, &row[0], y, 0); }
    TIFFClose(t); g.trace("TIFF ", w, "x", h, " kind ", kind, " bits ", bps, " compression ", comp, " rows ", rps); g.label("TIFF kind " + std::to_string(kind)); return slurp(path);
}
// ---- JPEG ----
static std::string jpegEncode(pbt::Src& g, Img& out, bool decodable) {
    unsigned w, h; dims(g, w, h); int kind = (int)g.draw(decodable ? 1 : 2); jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); unsigned char* mem = nullptr; unsigned long n = 0; jpeg_mem_dest(&c, &mem, &n);
    c.image_width = w; c.image_height = h; c.input_components = kind == 0 ? 1 : kind == 1 ? 3 : 4; c.in_color_space = kind == 0 ? JCS_GRAYSCALE : kind == 1 ? JCS_RGB : JCS_CMYK; jpeg_set_defaults(&c); jpeg_set_quality(&c, (int)g.range(20, 100), TRUE); bool prog = g.chance(1, 4); if (prog) jpeg_simple_progression(&c); if (kind == 1 && g.chance(1, 4)) jpeg_set_colorspace(&c, JCS_RGB); if (g.chance(1, 4)) c.restart_interval = 2;
    jpeg_start_compress(&c, TRUE); std::string row((size_t)w * c.input_components, 0); int step = (int)g.range(0, 20), base = (int)g.draw(255); for (unsigned y = 0; y < h; y++) { for (size_t i = 0; i < row.size(); i++) row[i] = (char)(base + step * (int)(i / c.input_components) + 3 * (int)y + 40 * (int)(i % c.input_components)); JSAMPROW r = (JSAMPROW)row.data(); jpeg_write_scanlines(&c, &r, 1); }
    jpeg_finish_compress(&c); std::string s((char*)mem, n); jpeg_destroy_compress(&c); free(mem);
    jpeg_decompress_struct d; d.err = jpeg_std_error(&e); jpeg_create_decompress(&d); jpeg_mem_src(&d, (const unsigned char*)s.data(), s.size()); jpeg_read_header(&d, TRUE); jpeg_start_decompress(&d); out.w = w; out.h = h; out.px.clear(); out.gray = kind == 0; out.cmyk = kind == 2; std::vector<unsigned char> o((size_t)w * d.output_components);
    for (unsigned y = 0; y < h; y++) { JSAMPROW r = o.data(); jpeg_read_scanlines(&d, &r, 1); for (unsigned x = 0; x < w; x++) { auto p = &o[(size_t)x * d.output_components]; out.px.push_back(kind == 0 ? Px{ p[0], p[0], p[0], 255 } : kind == 1 ? Px{ p[0], p[1], p[2], 255 } : Px{ p[0], p[1], p[2], p[3] }); } } jpeg_destroy_decompress(&d);
    g.trace("JPEG ", w, "x", h, " kind ", kind, prog ? " progressive" : ""); g.label("JPEG kind " + std::to_string(kind)); return s;
}
// ---- what an image object shows ----
static std::string render(const Doc& d, int64_t num, Img& out, std::string* jpeg = nullptr) {
    auto it = d.objs.find(num); if (it == d.objs.end()) return "the image is missing"; const V& dict = it->second.v; auto I = [&](const V& m, const char* k, int64_t def) { auto x = m.get(k); if (!x) return def; auto& v = resolve(d, *x); return v.k == K::Int ? v.i : def; };
    auto st = dict.get("Subtype"); if (!st || st->s != "Image") return "no image"; out = Img(); out.w = (unsigned)I(dict, "Width", -1); out.h = (unsigned)I(dict, "Height", -1); int64_t bpc = I(dict, "BitsPerComponent", -1); auto csv = dict.get("ColorSpace"); if (!csv) return "no ColorSpace"; const V& cs = resolve(d, *csv);
    if (out.w > 100000 || out.h > 100000) return "size"; size_t ch = 1; std::string lookup; int64_t hival = 0; bool indexed = false; std::string csName = cs.k == K::Name ? cs.s : "";
    if (cs.k == K::Arr) { if (cs.a.size() != 4 || cs.a[0].k != K::Name || cs.a[0].s != "Indexed" || cs.a[1].k != K::Name || cs.a[1].s != "DeviceRGB" || cs.a[2].k != K::Int) return "color space " + ref::show(cs); indexed = true; hival = cs.a[2].i; if (cs.a[3].k == K::Str) lookup = cs.a[3].s; else if (cs.a[3].k == K::Ref && d.objs.count(cs.a[3].i)) { auto& o = d.objs.at(cs.a[3].i); lookup = decodeStream(o.v, o.raw, &d); } else return "lookup table"; if (hival < 0 || hival > 255 || lookup.size() < 3 * (size_t)(hival + 1)) return "lookup table with " + std::to_string(lookup.size()) + " bytes for " + std::to_string(hival); }
    else if (csName == "DeviceGray") out.gray = true; else if (csName == "DeviceRGB") ch = 3; else if (csName == "DeviceCMYK") { ch = 4; out.cmyk = true; } else return "color space " + ref::show(cs);
    if (bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 && bpc != 16) return "BitsPerComponent " + std::to_string(bpc); if (indexed && bpc > 8) return "bits of indexed image"; double mx = std::pow(2, bpc) - 1;
    std::vector<double> dec; if (auto x = dict.get("Decode")) { auto& v = resolve(d, *x); for (auto& y : v.a) dec.push_back(y.num()); if (dec.size() != 2 * ch) return "Decode " + ref::show(v); } else for (size_t i = 0; i < ch; i++) { dec.push_back(0); dec.push_back(indexed ? mx : 1); }
    auto ft = dict.get("Filter"); std::string fn = ft && resolve(d, *ft).k == K::Name ? resolve(d, *ft).s : ft && resolve(d, *ft).k == K::Arr && resolve(d, *ft).a.size() == 1 ? resolve(d, *ft).a[0].s : ""; std::string data;
    if (fn == "DCTDecode") { if (!jpeg) return "JPEG data"; *jpeg = it->second.raw; if (bpc != 8) return "bits of JPEG data"; if (out.cmyk != (dec[0] == 1)) return "Decode of JPEG data"; return ""; }
    if (jpeg) return "not JPEG data"; try { data = decodeStream(dict, it->second.raw, &d); } catch (SyntaxError& e) { return "data: " + e.msg; }
    size_t rb = ((size_t)out.w * ch * bpc + 7) / 8; if (data.size() != rb * out.h) return "data has " + std::to_string(data.size()) + " bytes instead of " + std::to_string(rb * out.h);
    for (unsigned y = 0; y < out.h; y++) for (unsigned x = 0; x < out.w; x++) { double v[4]; for (size_t c = 0; c < ch; c++) { size_t bit = (x * ch + c) * bpc; auto p = (const unsigned char*)data.data() + y * rb + bit / 8; unsigned s = bpc == 16 ? p[0] << 8 | p[1] : (*p >> (8 - bpc - bit % 8)) & (unsigned)mx; v[c] = dec[2 * c] + s * (dec[2 * c + 1] - dec[2 * c]) / mx; if (!indexed) v[c] = bpc == 16 ? std::floor(v[c] * 65535 / 256 + 1e-6) : v[c] * 255; }
        if (indexed) { int64_t i = (int64_t)std::lround(v[0]); if (i < 0 || i > hival) return "index " + std::to_string(i); auto p = (const unsigned char*)lookup.data() + 3 * i; out.px.push_back({ p[0], p[1], p[2], 255 }); } else if (ch == 1) { int s = (int)std::lround(v[0]); out.px.push_back({ s, s, s, 255 }); } else out.px.push_back({ (int)std::lround(v[0]), (int)std::lround(v[1]), (int)std::lround(v[2]), ch == 4 ? (int)std::lround(v[3]) : 255 }); }
    if (auto sm = dict.get("SMask")) { if (sm->k != K::Ref) return "SMask is direct"; Img m; auto e = render(d, sm->i, m); if (e.size()) return "soft mask: " + e; if (!m.gray || m.w != out.w || m.h != out.h) return "soft mask"; for (size_t i = 0; i < out.px.size(); i++) out.px[i][3] = m.px[i][0]; }
    return "";
}
static std::string differ(const Img& a, const Img& b) {
    if (a.w != b.w || a.h != b.h) return "size " + std::to_string(a.w) + "x" + std::to_string(a.h) + " instead of " + std::to_string(b.w) + "x" + std::to_string(b.h); if (a.cmyk != b.cmyk) return "kind of colours";
    for (size_t i = 0; i < a.px.size(); i++) if (a.px[i] != b.px[i]) { std::string s = "pixel " + std::to_string(i % a.w) + "," + std::to_string(i / a.w) + " is"; for (int v : a.px[i]) s += " " + std::to_string(v); s += " instead of"; for (int v : b.px[i]) s += " " + std::to_string(v); return s; }
    return "";
}
// decoding by the library
static void decode(pbt::Src& g, const PdfImage& im, const Img& want, bool must, const char* tag, bool grayRaw) {
    CHECK(tag, im.GetWidth() == want.w && im.GetHeight() == want.h, "size of the image"); auto f = g.pick({ PdfPixelFormat::RGBA, PdfPixelFormat::BGRA, PdfPixelFormat::RGB24, PdfPixelFormat::BGR24, PdfPixelFormat::Grayscale });
    int bpp = f == PdfPixelFormat::RGBA || f == PdfPixelFormat::BGRA ? 4 : f == PdfPixelFormat::Grayscale ? 1 : 3; unsigned row = bpp == 4 ? 4 * want.w : 4 * ((bpp * want.w + 3) / 4); int rs = -1; charbuff buf; std::string s; if (f == PdfPixelFormat::Grayscale) must = must && grayRaw;
    try {
        switch (g.draw(2)) {
            case 0: im.DecodeTo(buf, f); s.assign(buf.data(), buf.size()); break;
            case 1: { s.assign((size_t)row * want.h, 0); im.DecodeTo(bufferspan(&s[0], s.size()), f); break; }
            default: { rs = (int)(row + g.draw(9)); StringStreamDevice dev(s); im.DecodeTo(dev, f, rs); row = (unsigned)rs; } }
    } catch (PdfError& e) { CHECK(tag, !must, "decoding raises " + std::to_string((int)e.GetError()) + " for format " + std::to_string((int)f)); return; }
    CHECK(tag, s.size() == (size_t)row * want.h, "decoding gives " + std::to_string(s.size()) + " bytes");
    for (unsigned y = 0; y < want.h; y++) for (unsigned x = 0; x < want.w; x++) { auto p = (const unsigned char*)s.data() + (size_t)y * row + x * bpp; auto& q = want.px[(size_t)y * want.w + x]; bool bgr = f == PdfPixelFormat::BGRA || f == PdfPixelFormat::BGR24; bool ok = bpp == 1 ? p[0] == q[0] : p[0] == q[bgr ? 2 : 0] && p[1] == q[1] && p[2] == q[bgr ? 0 : 2] && (bpp < 4 || p[3] == q[3]); CHECK(tag, ok, "decoded pixel " + std::to_string(x) + "," + std::to_string(y) + " differs in format " + std::to_string((int)f)); }
    if (g.chance(1, 6)) { bool raised = false; try { std::string t; StringStreamDevice dev(t); im.DecodeTo(dev, f, (int)(bpp == 4 ? 4 * want.w : 4 * ((bpp * want.w + 3) / 4)) - 1); } catch (PdfError&) { raised = true; } CHECK(tag, raised, "rows that are too small are accepted"); }
}
static void files(pbt::Src& g) {
    PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 300, 300)); auto im = doc.CreateImage(); Img want; std::string bytes, ext, path = scratch("image"); bool jpg = false;
    size_t loads = g.chance(1, 5) ? 2 : 1; for (size_t k = 0; k < loads; k++) {
        if (k && im->GetDictionary().HasKey("SMask")) break; // a soft mask stays
        jpg = false; want = Img(); std::string p2; switch (g.draw(2)) { case 0: bytes = png(g, want); ext = ".png"; break; case 1: bytes = tiff(g, want, path + ".tif"); ext = g.coin() ? ".tif" : ".tiff"; break; default: bytes = jpegEncode(g, want, false); ext = g.pick({ ".jpg", ".jpeg", ".JPG" }); jpg = true; }
        p2 = path + ext; if (g.coin()) im->LoadFromBuffer(bufferview(bytes.data(), bytes.size())); else { spit(p2, bytes); try { im->LoadFromFile(p2); } catch (...) { unlink(p2.c_str()); throw; } unlink(p2.c_str()); } unlink((path + ".tif").c_str()); }
    CHECK("size", im->GetWidth() == want.w && im->GetHeight() == want.h && im->GetRect().GetWidth() == want.w && im->GetRect().GetHeight() == want.h, "size of the image");
    bool alpha = false; for (auto& p : want.px) alpha |= !want.cmyk && p[3] != 255; bool chroma = false, interp = g.chance(1, 4); if (interp) im->SetInterpolate(true); if (g.chance(1, 5)) { chroma = true; im->SetChromaKeyMask(10, 20, 30, 2); }
    int64_t num = im->GetObject().GetIndirectReference().ObjectNumber(); auto file = save(doc, genSave(g) | PdfSaveOptions::NoCollectGarbage); auto r = readStrict(file); Img got; std::string raw; auto e = render(r.doc, num, got, jpg ? &raw : nullptr); CHECK("object", e.empty(), e);
    if (jpg) { CHECK("jpeg", raw == bytes && got.w == want.w && got.h == want.h && got.cmyk == want.cmyk && got.gray == want.gray, "JPEG data or kind of the image differ"); CHECK("jpeg", !r.doc.objs[num].v.get("SMask"), "soft mask"); } else { e = differ(got, want); CHECK("pixels", e.empty(), e); }
    auto& dict = r.doc.objs[num].v; if (interp) CHECK("keys", dict.get("Interpolate") && dict.get("Interpolate")->b, "Interpolate"); if (chroma) { auto m = dict.get("Mask"); CHECK("keys", m && ref::show(*m) == ref::show(V::arr({ V::integer(8), V::integer(12), V::integer(18), V::integer(22), V::integer(28), V::integer(32) })), "Mask"); }
    bool plain = !want.cmyk && !resolve(r.doc, *dict.get("ColorSpace")).a.size() && resolve(r.doc, *dict.get("BitsPerComponent")).i == 8; decode(g, *im, want, plain, "decode", want.gray);
    auto d = loadMm(file); auto o = d->GetObjects().GetObject(PdfReference((uint32_t)num, 0)); std::unique_ptr<PdfImage> im2; CHECK("loaded", o && PdfXObject::TryCreateFromObject<PdfImage>(*o, im2), "the image is not found in the saved document"); decode(g, *im2, want, plain, "loaded", want.gray);
    if (plain && g.chance(1, 3)) { charbuff b; PdfArray args; args.Add(PdfObject(1.0)); im->ExportTo(b, PdfExportFormat::Jpeg, args); auto im3 = doc.CreateImage(); im3->LoadFromBuffer(b); CHECK("export", im3->GetWidth() == want.w && im3->GetHeight() == want.h, "size of the exported image"); if (!varied(want)) { charbuff c; im3->DecodeTo(c, PdfPixelFormat::RGBA); for (size_t i = 0; i < want.px.size(); i++) for (int k = 0; k < 3; k++) CHECK("export", std::abs((int)(unsigned char)c[4 * i + k] - want.px[i][k]) <= 4, "pixel of the exported image"); } }
    if (varied(want)) g.nontrivial();
}
PROP(C23, files, 14000, 100000, 50) { files(g); }

static void direct(pbt::Src& g) {
    PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 300, 300)); auto im = doc.CreateImage(); Img want; dims(g, want.w, want.h); int kind = (int)g.draw(2); size_t n = (size_t)want.w * want.h; std::string data; want.gray = kind == 0; unsigned ch = kind == 0 ? 1 : 3;
    for (size_t i = 0; i < n; i++) { Px p{ (int)g.draw(255), (int)g.draw(255), (int)g.draw(255), 255 }; if (kind == 0) p[1] = p[2] = p[0]; want.px.push_back(p); }
    bool raw = g.chance(1, 3); std::vector<double> dec; if (raw && g.chance(1, 3)) { for (unsigned c = 0; c < ch; c++) { bool inv = g.coin(); dec.push_back(inv); dec.push_back(!inv); } } unsigned row = ch * want.w, stride = raw ? row : 4 * ((row + 3) / 4); int rs = -1; if (!raw && g.coin()) { stride = row + (unsigned)g.draw(5); rs = (int)stride; }
    for (unsigned y = 0; y < want.h; y++) { std::string l; for (unsigned x = 0; x < want.w; x++) { auto& p = want.at(x, y); if (kind == 0) l += (char)p[0]; else for (int c = 0; c < 3; c++) l += (char)p[!raw && kind == 2 ? 2 - c : c]; } if (dec.size()) for (size_t i = 0; i < l.size(); i++) if (dec[2 * (i % ch)] == 1) l[i] = (char)(255 - (unsigned char)l[i]); l.resize(stride, 'x'); data += l; }
    if (!raw) { if (g.coin()) im->SetData(bufferview(data.data(), data.size()), want.w, want.h, kind == 0 ? PdfPixelFormat::Grayscale : kind == 1 ? PdfPixelFormat::RGB24 : PdfPixelFormat::BGR24, rs); else { SpanStreamDevice dev(data); im->SetData(dev, want.w, want.h, kind == 0 ? PdfPixelFormat::Grayscale : kind == 1 ? PdfPixelFormat::RGB24 : PdfPixelFormat::BGR24, rs); } }
    else { PdfImageInfo info; info.Width = want.w; info.Height = want.h; info.BitsPerComponent = 8; info.ColorSpace = kind == 0 ? PdfColorSpace::DeviceGray : PdfColorSpace::DeviceRGB; for (double d : dec) info.Decode.Add(d); std::string enc = data; if (g.coin()) { info.Filters.push_back(PdfFilterType::FlateDecode); enc = deflateAll(data); } im->SetDataRaw(bufferview(enc.data(), enc.size()), info); }
    g.trace(raw ? "raw " : "data ", want.w, "x", want.h, " kind ", kind, " stride ", rs, " decode ", dec.size());
    if (g.chance(1, 3)) { std::string a; for (size_t i = 0; i < n; i++) { want.px[i][3] = (int)g.draw(255); a += (char)want.px[i][3]; } auto m = doc.CreateImage(); PdfImageInfo info; info.Width = want.w; info.Height = want.h; info.BitsPerComponent = 8; info.ColorSpace = PdfColorSpace::DeviceGray; m->SetDataRaw(bufferview(a.data(), a.size()), info); im->SetSoftmask(*m); g.label("soft mask"); }
    int64_t num = im->GetObject().GetIndirectReference().ObjectNumber(); bool icc = g.chance(1, 6); std::string prof = "profile"; decode(g, *im, want, true, "decode", want.gray);
    if (icc) { SpanStreamDevice p(prof); im->SetICCProfile(p, ch, kind == 0 ? PdfColorSpace::DeviceGray : PdfColorSpace::DeviceRGB); }
    auto file = save(doc, genSave(g) | PdfSaveOptions::NoCollectGarbage); auto r = readStrict(file);
    if (icc) { auto& cs = resolve(r.doc, *r.doc.objs[num].v.get("ColorSpace")); CHECK("icc", cs.k == K::Arr && cs.a.size() == 2 && cs.a[0].s == "ICCBased" && cs.a[1].k == K::Ref, "color space " + ref::show(cs)); auto& o = r.doc.objs[cs.a[1].i]; CHECK("icc", decodeStream(o.v, o.raw, &r.doc) == prof && o.v.get("N")->i == ch && o.v.get("Alternate")->s == (kind == 0 ? "DeviceGray" : "DeviceRGB"), "profile"); g.nontrivial(); return; }
    Img got; auto e = render(r.doc, num, got); CHECK("object", e.empty(), e); e = differ(got, want); CHECK("pixels", e.empty(), e);
    auto d = loadMm(file); auto o = d->GetObjects().GetObject(PdfReference((uint32_t)num, 0)); std::unique_ptr<PdfImage> im2; CHECK("loaded", o && PdfXObject::TryCreateFromObject<PdfImage>(*o, im2), "the image is not found in the saved document"); decode(g, *im2, want, true, "loaded", want.gray); if (varied(want)) g.nontrivial();
}
PROP(C23, direct, 12000, 100000, 30) { direct(g); }

// encoded data in a document: JPEG and fax
static void encoded(pbt::Src& g) {
    PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 300, 300)); Img want; auto& o = doc.GetObjects().CreateDictionaryObject("XObject", "Image"); auto& dict = o.GetDictionary(); std::string data; PdfDictionary parms; bool flate = g.chance(1, 4); std::string filter; bool parm = false;
    if (g.coin()) { data = jpegEncode(g, want, true); filter = "DCTDecode"; dict.AddKey("ColorSpace", PdfName(want.gray ? "DeviceGray" : "DeviceRGB")); dict.AddKey("BitsPerComponent", (int64_t)8); }
    else {
        dims(g, want.w, want.h); want.gray = true; std::string path = scratch("fax.tif"); int mode = (int)g.draw(2); TIFF* t = TIFFOpen(path.c_str(), "wl"); TIFFSetField(t, TIFFTAG_IMAGEWIDTH, want.w); TIFFSetField(t, TIFFTAG_IMAGELENGTH, want.h); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, 1); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, 1); TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, want.h); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_MINISWHITE); TIFFSetField(t, TIFFTAG_FILLORDER, FILLORDER_MSB2LSB);
        TIFFSetField(t, TIFFTAG_COMPRESSION, mode == 0 ? COMPRESSION_CCITTFAX4 : COMPRESSION_CCITTFAX3); if (mode == 2) TIFFSetField(t, TIFFTAG_GROUP3OPTIONS, GROUP3OPT_2DENCODING); bool blackIs1 = g.chance(1, 3);
        int run = 1 + (int)g.draw(8); bool bit = false; for (unsigned y = 0; y < want.h; y++) { std::string row((want.w + 7) / 8, 0); for (unsigned x = 0; x < want.w; x++) { if (g.chance(1, (unsigned)run)) bit = !bit; if (bit) row[x / 8] |= (char)(0x80 >> x % 8); int v = bit != blackIs1 ? 0 : 255; want.px.push_back({ v, v, v, 255 }); } TIFFWriteScanline(t, &row[0], y, 0); } TIFFClose(t);
        t = TIFFOpen(path.c_str(), "r"); data.resize((size_t)TIFFRawStripSize(t, 0)); TIFFReadRawStrip(t, 0, &data[0], (tmsize_t)data.size()); TIFFClose(t); unlink(path.c_str());
        filter = "CCITTFaxDecode"; parm = true; parms.AddKey("K", (int64_t)(mode == 0 ? -1 : mode == 1 ? 0 : 4)); if (mode) parms.AddKey("EndOfLine", true); parms.AddKey("Columns", (int64_t)want.w); parms.AddKey("Rows", (int64_t)want.h); if (blackIs1) parms.AddKey("BlackIs1", true); dict.AddKey("ColorSpace", PdfName("DeviceGray")); dict.AddKey("BitsPerComponent", (int64_t)1); g.trace("fax ", want.w, "x", want.h, " mode ", mode); g.label("fax " + std::to_string(mode));
    }
    dict.AddKey("Width", (int64_t)want.w); dict.AddKey("Height", (int64_t)want.h); std::string enc = flate ? deflateAll(data) : data; o.GetOrCreateStream().SetData(bufferview(enc.data(), enc.size()), true);
    if (flate) { PdfArray f; f.Add(PdfName("FlateDecode")); f.Add(PdfName(filter)); dict.AddKey("Filter", f); if (parm) { PdfArray a; a.Add(PdfObject(PdfVariant())); a.Add(PdfObject(parms)); dict.AddKey("DecodeParms", a); } } else { dict.AddKey("Filter", PdfName(filter)); if (parm) dict.AddKey("DecodeParms", PdfObject(parms)); }
    if (g.chance(1, 3)) { std::string a; for (auto& p : want.px) { p[3] = (int)g.draw(255); a += (char)p[3]; } auto& m = doc.GetObjects().CreateDictionaryObject("XObject", "Image"); m.GetDictionary().AddKey("Width", (int64_t)want.w); m.GetDictionary().AddKey("Height", (int64_t)want.h); m.GetDictionary().AddKey("ColorSpace", PdfName("DeviceGray")); m.GetDictionary().AddKey("BitsPerComponent", (int64_t)8); m.GetOrCreateStream().SetData(bufferview(a.data(), a.size())); dict.AddKey("SMask", m.GetIndirectReference()); }
    auto file = save(doc, genSave(g) | PdfSaveOptions::NoCollectGarbage); auto d = loadMm(file); auto o2 = d->GetObjects().GetObject(o.GetIndirectReference()); std::unique_ptr<PdfImage> im; CHECK("loaded", o2 && PdfXObject::TryCreateFromObject<PdfImage>(*o2, im), "the image is not found in the saved document");
    decode(g, *im, want, true, "decode", want.gray); if (varied(want)) g.nontrivial();
}
PROP(C23, encoded, 12000, 100000, 40) { encoded(g); }

static void malformed(pbt::Src& g) {
    PdfMemDocument doc; Img want; std::string path = scratch("bad"), s, ext; switch (g.draw(2)) { case 0: s = png(g, want); ext = ".png"; break; case 1: s = tiff(g, want, path + ".tif"); unlink((path + ".tif").c_str()); ext = ".tif"; break; default: s = jpegEncode(g, want, false); ext = ".jpg"; }
    size_t sof = std::string::npos; if (ext == ".jpg") for (size_t i = 2; i + 4 < s.size();) { unsigned char m = (unsigned char)s[i + 1]; if (m == 0xC0 || m == 0xC2) { sof = i; break; } i += 2 + ((unsigned char)s[i + 2] << 8 | (unsigned char)s[i + 3]); }
    size_t edits = 1 + g.draw(3); bool changed = false; for (size_t k = 0; k < edits && s.size(); k++) switch (g.draw(3)) {
        case 0: s.resize(g.draw(s.size() - 1)); changed = true; break;
        case 1: { size_t i = g.index(std::min<size_t>(s.size(), g.coin() ? 60 : 100000)); if (sof != std::string::npos && i >= sof && i < sof + 10) break; s[i] = (char)g.draw(255); changed = true; break; }
        case 2: { if (ext == ".jpg") break; size_t i = g.index(s.size()), n = g.draw(std::min<size_t>(8, s.size() - i)); s.erase(i, n); changed = n > 0; break; }
        default: { size_t i = g.index(s.size()); if (sof != std::string::npos && i < sof + 20) break; s.insert(i, g.bytesExact(1 + g.draw(4))); changed = true; } }
    if (ext == ".png" && s.size() > 60 && g.chance(1, 3)) { // checksums are right, the data are not
        std::string f = s.substr(0, 8); size_t i = 8; while (i + 12 <= s.size()) { uint32_t n = 0; for (int k = 0; k < 4; k++) n = n << 8 | (unsigned char)s[i + k]; if (n > s.size() - i - 12) break; std::string b = s.substr(i + 4, 4 + n); be(f, n); f += b; be(f, b.substr(0, 4) == "IHDR" && b != s.substr(12, 17) ? 0 : (uint32_t)crc32(0, (const Bytef*)b.data(), (uInt)b.size())); i += 12 + n; } uint32_t w = 0, h = 0; for (int k = 0; k < 4 && f.size() > 24; k++) { w = w << 8 | (unsigned char)f[16 + k]; h = h << 8 | (unsigned char)f[20 + k]; } if (f.size() > 24 && w <= 1000 && h <= 1000) s = f; }
    auto im = doc.CreateImage(); g.trace(ext, " ", s.size(), " bytes ", pbt::show(s.substr(0, 600))); bool ok = false;
    try { if (g.coin()) im->LoadFromBuffer(bufferview(s.data(), s.size())); else { std::string p = path + ext; spit(p, s); try { im->LoadFromFile(p); } catch (...) { unlink(p.c_str()); throw; } unlink(p.c_str()); } ok = true; } catch (PdfError&) { }
    if (ok && (uint64_t)im->GetWidth() * im->GetHeight() <= 100000) { charbuff b; try { im->DecodeTo(b, g.pick({ PdfPixelFormat::RGBA, PdfPixelFormat::RGB24, PdfPixelFormat::Grayscale })); } catch (PdfError&) { } }
    g.label(ext + (ok ? " loaded" : " refused")); if (changed) g.nontrivial();
}
PROP(C23, malformed, 25000, 200000, 50) { malformed(g); }
