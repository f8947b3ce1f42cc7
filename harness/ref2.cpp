#include "ref.h"
#include <zlib.h>
#include <openssl/evp.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <openssl/aes.h>

namespace ref {
// ---- filters -----------------------------------------------------------------
std::string hexDecode(std::string_view in) {
    std::string h; for (char c : in) { if (c == '>') break; if (isWs(c)) continue; if (!isxdigit((unsigned char)c)) throw SyntaxError{ "bad hex", 0 }; h += c; }
    if (h.size() % 2) h += '0';
    std::string r; for (size_t i = 0; i < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return r;
}
std::string a85Decode(std::string_view in) {
    std::string r; uint64_t t = 0; int n = 0;
    for (size_t i = 0; i < in.size(); i++) {
        char c = in[i]; if (isWs(c)) continue;
        if (c == '~') break;
        if (c == 'z' && n == 0) { r.append(4, '\0'); continue; }
        if (c < '!' || c > 'u') throw SyntaxError{ "bad a85 char", i };
        t = t * 85 + (c - '!');
        if (++n == 5) { if (t > 0xFFFFFFFFull) throw SyntaxError{ "a85 overflow", i }; for (int k = 3; k >= 0; k--) r += (char)(t >> (8 * k)); t = 0; n = 0; }
    }
    if (n == 1) throw SyntaxError{ "a85 single trailing char", 0 };
    if (n) { for (int k = n; k < 5; k++) t = t * 85 + 84; for (int k = 0; k < n - 1; k++) r += (char)(t >> (8 * (3 - k))); }
    return r;
}
std::string rlDecode(std::string_view in) {
    std::string r; size_t i = 0;
    while (i < in.size()) {
        unsigned l = (unsigned char)in[i++]; if (l == 128) break;
        if (l < 128) { if (i + l + 1 > in.size()) throw SyntaxError{ "rl short", i }; r += in.substr(i, l + 1); i += l + 1; }
        else { if (i >= in.size()) throw SyntaxError{ "rl short", i }; r.append(257 - l, in[i++]); }
    }
    return r;
}
std::string lzwDecode(std::string_view in, int early) {
    std::vector<std::string> t; std::string r; uint64_t buf = 0; int bits = 0, w = 9; bool have = false; std::string prev;
    auto reset = [&] { t.assign(258, ""); for (int i = 0; i < 256; i++) t[i] = std::string(1, (char)i); w = 9; have = false; };
    reset();
    for (size_t i = 0;;) {
        while (bits < w && i < in.size()) { buf = (buf << 8 | (unsigned char)in[i++]) & 0xFFFFFFFFull; bits += 8; }
        if (bits < w) break;
        unsigned c = (unsigned)(buf >> (bits - w)) & ((1u << w) - 1); bits -= w;
        if (c == 256) { reset(); continue; }
        if (c == 257) break;
        std::string e;
        if (c < t.size()) e = t[c]; else if (c == t.size() && have) e = prev + prev[0]; else throw SyntaxError{ "bad lzw code", i };
        r += e; if (have && t.size() < 4096) t.push_back(prev + e[0]);
        prev = e; have = true;
        size_t n = t.size() + (early ? 1 : 0); w = n >= 2048 ? 12 : n >= 1024 ? 11 : n >= 512 ? 10 : 9;
    }
    return r;
}
std::string inflateAll(std::string_view in) {
    z_stream z{}; if (inflateInit(&z) != Z_OK) throw SyntaxError{ "zlib", 0 };
    std::string r; char b[16384]; z.next_in = (Bytef*)in.data(); z.avail_in = (uInt)in.size(); int rc;
    do { z.next_out = (Bytef*)b; z.avail_out = sizeof b; rc = inflate(&z, Z_NO_FLUSH); r.append(b, sizeof b - z.avail_out); if (r.size() > (64u << 20)) { inflateEnd(&z); throw SyntaxError{ "too big", 0 }; } } while (rc == Z_OK && (z.avail_in || !z.avail_out));
    inflateEnd(&z); if (rc != Z_STREAM_END) throw SyntaxError{ "inflate failed", 0 };
    return r;
}
std::string deflateAll(std::string_view in, int level) {
    uLongf n = compressBound(in.size()); std::string r(n, 0); compress2((Bytef*)r.data(), &n, (const Bytef*)in.data(), in.size(), level); r.resize(n); return r;
}
static int paeth(int a, int b, int c) { int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c); return pa <= pb && pa <= pc ? a : pb <= pc ? b : c; }
std::string predictorDecode(std::string_view in, int pred, int colors, int bpc, int columns) {
    if (pred <= 1) return std::string(in);
    size_t row = ((size_t)colors * bpc * columns + 7) / 8, bpp = ((size_t)colors * bpc + 7) / 8;
    std::string r;
    if (pred == 2) {
        for (size_t p = 0; p < in.size(); p += row) {
            std::string l(in.substr(p, row));
            if (bpc == 8) { for (size_t i = colors; i < l.size(); i++) l[i] = (char)(l[i] + l[i - colors]); }
            else if (bpc == 16) { for (size_t i = 2 * (size_t)colors; i + 1 < l.size(); i += 2) { int v = ((unsigned char)l[i] << 8 | (unsigned char)l[i + 1]) + ((unsigned char)l[i - 2 * colors] << 8 | (unsigned char)l[i - 2 * colors + 1]); l[i] = (char)(v >> 8); l[i + 1] = (char)v; } }
            else { std::vector<unsigned> left(colors, 0); unsigned mask = (1u << bpc) - 1; size_t bit = 0;
                for (int x = 0; x < columns; x++) for (int c = 0; c < colors; c++, bit += bpc) { if (bit / 8 >= l.size()) break; int sh = 8 - bpc - (int)(bit % 8); unsigned v = ((unsigned char)l[bit / 8] >> sh) & mask; v = (v + left[c]) & mask; left[c] = v; l[bit / 8] = (char)(((unsigned char)l[bit / 8] & ~(mask << sh)) | v << sh); } }
            r += l;
        }
        return r;
    }
    std::string up(row, 0);
    for (size_t p = 0; p < in.size(); p += row + 1) {
        int t = (unsigned char)in[p]; std::string l(in.substr(p + 1, row)); size_t got = l.size(); l.resize(row, 0);
        for (size_t i = 0; i < got; i++) {
            int a = i >= bpp ? (unsigned char)l[i - bpp] : 0, b = (unsigned char)up[i], c = i >= bpp ? (unsigned char)up[i - bpp] : 0, x = (unsigned char)l[i];
            switch (t) { case 0: break; case 1: x += a; break; case 2: x += b; break; case 3: x += (a + b) / 2; break; case 4: x += paeth(a, b, c); break; default: throw SyntaxError{ "png filter type", p }; }
            l[i] = (char)x;
        }
        r += l.substr(0, got); up = l;
    }
    return r;
}
std::string predictorEncode(std::string_view in, int pred, int colors, int bpc, int columns, pbt::Src* g) {
    if (pred <= 1) return std::string(in);
    size_t row = ((size_t)colors * bpc * columns + 7) / 8, bpp = ((size_t)colors * bpc + 7) / 8;
    std::string r, up(row, 0);
    for (size_t p = 0; p + row <= in.size(); p += row) {
        std::string l(in.substr(p, row)), e = l;
        if (pred == 2) {
            if (bpc == 8) { for (size_t i = colors; i < row; i++) e[i] = (char)(l[i] - l[i - colors]); }
            else if (bpc == 16) { for (size_t i = 2 * (size_t)colors; i + 1 < row; i += 2) { int v = ((unsigned char)l[i] << 8 | (unsigned char)l[i + 1]) - ((unsigned char)l[i - 2 * colors] << 8 | (unsigned char)l[i - 2 * colors + 1]); e[i] = (char)(v >> 8); e[i + 1] = (char)v; } }
            else { std::vector<unsigned> left(colors, 0); unsigned mask = (1u << bpc) - 1; size_t bit = 0;
                for (int x = 0; x < columns; x++) for (int c = 0; c < colors; c++, bit += bpc) { int sh = 8 - bpc - (int)(bit % 8); unsigned v = ((unsigned char)l[bit / 8] >> sh) & mask, d = (v - left[c]) & mask; left[c] = v; e[bit / 8] = (char)(((unsigned char)e[bit / 8] & ~(mask << sh)) | d << sh); } }
            r += e; continue;
        }
        int t = pred == 15 ? (g ? (int)g->draw(4) : (int)(p / row % 5)) : pred - 10;
        for (size_t i = 0; i < row; i++) {
            int a = i >= bpp ? (unsigned char)l[i - bpp] : 0, b = (unsigned char)up[i], c = i >= bpp ? (unsigned char)up[i - bpp] : 0, x = (unsigned char)l[i];
            switch (t) { case 1: x -= a; break; case 2: x -= b; break; case 3: x -= (a + b) / 2; break; case 4: x -= paeth(a, b, c); break; }
            e[i] = (char)x;
        }
        r += (char)t; r += e; up = l;
    }
    return r;
}
static void filterWs(std::string& r, pbt::Src* g) { if (g && g->chance(1, 20)) r += g->pick<char>({ '\n', ' ', '\r', '\t' }); }
std::string hexEncode(std::string_view in, pbt::Src* g) {
    std::string h = pbt::hex(in, in.size() + 1), r; bool up = g && g->coin();
    if (g && !h.empty() && h.back() == '0' && g->coin()) h.pop_back();
    for (char c : h) { r += up ? (char)toupper(c) : c; filterWs(r, g); }
    return r + ">";
}
std::string a85Encode(std::string_view in, pbt::Src* g) {
    std::string r; size_t i = 0;
    for (; i + 4 <= in.size(); i += 4) {
        uint32_t t = 0; for (int k = 0; k < 4; k++) t = t << 8 | (unsigned char)in[i + k];
        if (t == 0 && !(g && g->chance(1, 8))) { r += 'z'; filterWs(r, g); continue; }
        char b[5]; for (int k = 4; k >= 0; k--) { b[k] = (char)('!' + t % 85); t /= 85; } for (char c : b) { r += c; filterWs(r, g); }
    }
    if (i < in.size()) { size_t n = in.size() - i; uint32_t t = 0; for (size_t k = 0; k < 4; k++) t = t << 8 | (k < n ? (unsigned char)in[i + k] : 0); char b[5]; for (int k = 4; k >= 0; k--) { b[k] = (char)('!' + t % 85); t /= 85; } for (size_t k = 0; k <= n; k++) { r += b[k]; filterWs(r, g); } }
    r += '~'; if (g && g->chance(1, 10)) r += '\n'; return r + ">";
}
std::string rlEncode(std::string_view in, pbt::Src* g) {
    std::string r; size_t i = 0;
    while (i < in.size()) {
        size_t run = 1; while (i + run < in.size() && in[i + run] == in[i] && run < 128) run++;
        if (run >= 2 && !(g && g->chance(1, 6))) { if (g && g->chance(1, 4)) run = 2 + g->draw(run - 2); r += (char)(257 - run); r += in[i]; i += run; continue; }
        size_t n = 1; while (i + n < in.size() && n < 128 && !(i + n + 1 < in.size() && in[i + n] == in[i + n + 1] && !(g && g->chance(1, 3)))) n++;
        if (g && g->chance(1, 4)) n = 1 + g->draw(n - 1);
        r += (char)(n - 1); r += in.substr(i, n); i += n;
    }
    return r + (char)128;
}
std::string lzwEncode(std::string_view in, int early, pbt::Src* g) {
    std::string r; uint64_t buf = 0; int bits = 0, w = 9; std::map<std::string, int> t; int next;
    auto put = [&](int c) { buf = buf << w | (unsigned)c; bits += w; while (bits >= 8) { r += (char)(buf >> (bits - 8)); bits -= 8; } buf &= (1ull << bits) - 1; };
    auto reset = [&] { t.clear(); for (int i = 0; i < 256; i++) t[std::string(1, (char)i)] = i; next = 258; w = 9; };
    reset(); put(256);
    std::string cur; unsigned limit = g ? (g->chance(1, 2) ? 4094 : 258 + (unsigned)g->draw(3800)) : 4094;
    // `dec` is the number of entries the decoder has after the codes emitted so far
    int emitted = 0;
    auto emit = [&](int c) { put(c); emitted++; int dec = emitted == 1 ? 258 : 258 + emitted - 1; int n = dec + (early ? 1 : 0); w = n >= 2048 ? 12 : n >= 1024 ? 11 : n >= 512 ? 10 : 9; };
    for (char c : in) {
        std::string n = cur + c;
        if (t.count(n)) { cur = n; continue; }
        emit(t[cur]); t[n] = next++; cur = std::string(1, c);
        if ((unsigned)next >= limit) { emit(t[cur]); cur.clear(); put(256); reset(); emitted = 0; }
    }
    if (!cur.empty()) emit(t[cur]);
    put(257); if (bits) r += (char)(buf << (8 - bits));
    return r;
}

// ---- text ------------------------------------------------------------------------------
const uint32_t PdfDoc[256] = {
    0,0,0,0,0,0,0,0,0,9,10,0,0,13,0,0, 0,0,0,0,0,0,0,0,0x2D8,0x2C7,0x2C6,0x2D9,0x2DD,0x2DB,0x2DA,0x2DC,
    32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,
    64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,95,
    96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,0,
    0x2022,0x2020,0x2021,0x2026,0x2014,0x2013,0x192,0x2044,0x2039,0x203A,0x2212,0x2030,0x201E,0x201C,0x201D,0x2018,
    0x2019,0x201A,0x2122,0xFB01,0xFB02,0x141,0x152,0x160,0x178,0x17D,0x131,0x142,0x153,0x161,0x17E,0,
    0x20AC,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0,0xAE,0xAF,
    0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF,
    0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,
    0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF,
    0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,
    0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF };
void appendUtf8(std::string& s, uint32_t c) {
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
}
std::string utf8(const std::vector<uint32_t>& v) { std::string s; for (auto c : v) appendUtf8(s, c); return s; }
std::vector<uint32_t> fromUtf8(std::string_view s) {
    std::vector<uint32_t> r;
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i]; int n = c < 0x80 ? 0 : (c & 0xE0) == 0xC0 ? 1 : (c & 0xF0) == 0xE0 ? 2 : (c & 0xF8) == 0xF0 ? 3 : -1;
        if (n < 0 || i + n >= s.size()) throw SyntaxError{ "bad utf-8", i };
        uint32_t v = n == 0 ? c : c & (0x3F >> n); for (int k = 1; k <= n; k++) { if (((unsigned char)s[i + k] & 0xC0) != 0x80) throw SyntaxError{ "bad utf-8", i }; v = v << 6 | ((unsigned char)s[i + k] & 63); }
        r.push_back(v); i += n + 1;
    }
    return r;
}
std::string utf16be(const std::vector<uint32_t>& v) {
    std::string s; auto put = [&](uint32_t x) { s += (char)(x >> 8); s += (char)x; };
    for (auto c : v) if (c < 0x10000) put(c); else { c -= 0x10000; put(0xD800 + (c >> 10)); put(0xDC00 + (c & 0x3FF)); }
    return s;
}
std::vector<uint32_t> fromUtf16be(std::string_view s) {
    std::vector<uint32_t> r; if (s.size() % 2) throw SyntaxError{ "odd utf-16", 0 };
    auto at = [&](size_t i) { return (uint32_t)((unsigned char)s[i] << 8 | (unsigned char)s[i + 1]); };
    for (size_t i = 0; i < s.size(); i += 2) { uint32_t u = at(i); if (u >= 0xD800 && u < 0xDC00 && i + 3 < s.size()) { uint32_t l = at(i + 2); r.push_back(0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00)); i += 2; } else r.push_back(u); }
    return r;
}
std::string textBytes(std::string_view t) {
    auto cps = fromUtf8(t); std::string r; bool ok = true;
    for (auto c : cps) { bool f = false; for (int i = 0; i < 256 && !f; i++) if (PdfDoc[i] == c && c) { r += (char)i; f = true; } if (!f) { ok = false; break; } }
    if (ok && r.substr(0, 2) != "\xFE\xFF" && r.substr(0, 2) != "\xFF\xFE" && r.substr(0, 3) != "\xEF\xBB\xBF") return r;
    return "\xFE\xFF" + utf16be(cps);
}
std::string bytesText(std::string_view b) {
    if (b.substr(0, 2) == "\xFE\xFF") return utf8(fromUtf16be(b.substr(2)));
    if (b.substr(0, 3) == "\xEF\xBB\xBF") return std::string(b.substr(3));
    std::string r; for (unsigned char c : b) { if (!PdfDoc[c] && c) throw SyntaxError{ "undefined PDFDoc code", c }; appendUtf8(r, c ? PdfDoc[c] : 0); }
    return r;
}
std::vector<uint32_t> genText(pbt::Src& g, unsigned maxlen, int rep) {
    std::vector<uint32_t> r; unsigned n = g.size(maxlen);
    for (unsigned i = 0; i < n; i++) {
        int k = rep == 0 ? 0 : (int)g.draw((uint64_t)rep);
        switch (k) {
            case 0: r.push_back(32 + (uint32_t)g.draw(94)); break;
            case 1: { uint32_t c; do c = PdfDoc[g.draw(255)]; while (c < 32); r.push_back(c); break; }
            case 2: { uint32_t c = (uint32_t)g.range(0xA0, 0xFFFD); if (c >= 0xD800 && c < 0xE000) c -= 0x1000; if (c == 0xFEFF) c = 0x100; r.push_back(c); break; }
            default: { static const uint32_t s[] = { 0x1F600, 0x10000, 0x10FFFF, 0x2F800, 0x1D49C, 0x3042, 0x416, 0x20AC, 0x3000, 0xFFFD, 0x7FF, 0x800 }; r.push_back(s[g.draw(11)]); }
        }
    }
    return r;
}
// ---- crypto ----------------------------------------------------------------------------
std::string md5(std::string_view d) { unsigned char o[16]; MD5((const unsigned char*)d.data(), d.size(), o); return std::string((char*)o, 16); }
std::string sha(int bits, std::string_view d) {
    unsigned char o[64];
    if (bits == 256) SHA256((const unsigned char*)d.data(), d.size(), o); else if (bits == 384) SHA384((const unsigned char*)d.data(), d.size(), o); else SHA512((const unsigned char*)d.data(), d.size(), o);
    return std::string((char*)o, bits / 8);
}
std::string rc4(std::string_view key, std::string_view data) {
    unsigned char S[256]; for (int i = 0; i < 256; i++) S[i] = (unsigned char)i;
    for (int i = 0, j = 0; i < 256; i++) { j = (j + S[i] + (unsigned char)key[i % key.size()]) & 255; std::swap(S[i], S[j]); }
    std::string r(data); int i = 0, j = 0; for (auto& c : r) { i = (i + 1) & 255; j = (j + S[i]) & 255; std::swap(S[i], S[j]); c = (char)((unsigned char)c ^ S[(S[i] + S[j]) & 255]); }
    return r;
}
static std::string aes(bool enc, bool ecb, std::string_view key, std::string_view iv, std::string_view d, bool pad) {
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); const EVP_CIPHER* a = key.size() == 16 ? (ecb ? EVP_aes_128_ecb() : EVP_aes_128_cbc()) : (ecb ? EVP_aes_256_ecb() : EVP_aes_256_cbc());
    EVP_CipherInit_ex(c, a, nullptr, (const unsigned char*)key.data(), ecb ? nullptr : (const unsigned char*)iv.data(), enc ? 1 : 0); EVP_CIPHER_CTX_set_padding(c, pad ? 1 : 0);
    std::string o(d.size() + 32, 0); int n = 0, m = 0; int ok = EVP_CipherUpdate(c, (unsigned char*)o.data(), &n, (const unsigned char*)d.data(), (int)d.size()); if (ok) ok = EVP_CipherFinal_ex(c, (unsigned char*)o.data() + n, &m);
    EVP_CIPHER_CTX_free(c); if (!ok) throw SyntaxError{ "AES padding", 0 }; o.resize(n + m); return o;
}
std::string aesCbcDecrypt(std::string_view k, std::string_view iv, std::string_view d, bool p) { return aes(false, false, k, iv, d, p); }
std::string aesCbcEncrypt(std::string_view k, std::string_view iv, std::string_view d, bool p) { return aes(true, false, k, iv, d, p); }
std::string aesEcbDecrypt(std::string_view k, std::string_view d) { return aes(false, true, k, "", d, false); }
} // namespace ref
