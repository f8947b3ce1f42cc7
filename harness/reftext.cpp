#include "reftext.h"
using namespace ref;
namespace reftext {
static const uint32_t WIN[256]={0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x0,0x20ac,0x0,0x201a,0x192,0x201e,0x2026,0x2020,0x2021,0x2c6,0x2030,0x160,0x2039,0x152,0x0,0x17d,0x0,0x0,0x2018,0x2019,0x201c,0x201d,0x2022,0x2013,0x2014,0x2dc,0x2122,0x161,0x203a,0x153,0x0,0x17e,0x178,0x20,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0x2d,0xae,0xaf,0xb0,0xb1,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xbb,0xbc,0xbd,0xbe,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0xde,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe,0xff};
static const uint32_t MAC[256]={0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x0,0xc4,0xc5,0xc7,0xc9,0xd1,0xd6,0xdc,0xe1,0xe0,0xe2,0xe4,0xe3,0xe5,0xe7,0xe9,0xe8,0xea,0xeb,0xed,0xec,0xee,0xef,0xf1,0xf3,0xf2,0xf4,0xf6,0xf5,0xfa,0xf9,0xfb,0xfc,0x2020,0xb0,0xa2,0xa3,0xa7,0x2022,0xb6,0xdf,0xae,0xa9,0x2122,0xb4,0xa8,0x2260,0xc6,0xd8,0x221e,0xb1,0x2264,0x2265,0xa5,0xb5,0x2202,0x2211,0x220f,0x3c0,0x222b,0xaa,0xba,0x3a9,0xe6,0xf8,0xbf,0xa1,0xac,0x221a,0x192,0x2248,0x2206,0xab,0xbb,0x2026,0x20,0xc0,0xc3,0xd5,0x152,0x153,0x2013,0x2014,0x201c,0x201d,0x2018,0x2019,0xf7,0x25ca,0xff,0x178,0x2044,0xa4,0x2039,0x203a,0xfb01,0xfb02,0x2021,0xb7,0x201a,0x201e,0x2030,0xc2,0xca,0xc1,0xcb,0xc8,0xcd,0xce,0xcf,0xcc,0xd3,0xd4,0x0,0xd2,0xda,0xdb,0xd9,0x131,0x2c6,0x2dc,0xaf,0x2d8,0x2d9,0x2da,0xb8,0x2dd,0x2db,0x2c7};
static const uint32_t STD[256]={0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x2019,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x2018,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0xa1,0xa2,0xa3,0x2044,0xa5,0x192,0xa7,0xa4,0x27,0x201c,0xab,0x2039,0x203a,0xfb01,0xfb02,0x0,0x2013,0x2020,0x2021,0xb7,0x0,0xb6,0x2022,0x201a,0x201e,0x201d,0xbb,0x2026,0x2030,0x0,0xbf,0x0,0x60,0xb4,0x2c6,0x2dc,0xaf,0x2d8,0x2d9,0xa8,0x0,0x2da,0xb8,0x0,0x2dd,0x2db,0x2c7,0x2014,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0xc6,0x0,0xaa,0x0,0x0,0x0,0x0,0x141,0xd8,0x152,0xba,0x0,0x0,0x0,0x0,0x0,0xe6,0x0,0x0,0x0,0x131,0x0,0x0,0x142,0xf8,0x153,0xdf,0x0,0x0,0x0,0x0};
static const struct { const char* n; uint32_t u; } NAMES[] = {{"omega",0x3c9},{"psi",0x3c8},{"chi",0x3c7},{"phi",0x3c6},{"upsilon",0x3c5},{"tau",0x3c4},{"sigma",0x3c3},{"sigma1",0x3c2},{"rho",0x3c1},{"omicron",0x3bf},{"xi",0x3be},{"nu",0x3bd},{"kappa",0x3ba},{"iota",0x3b9},{"theta",0x3b8},{"eta",0x3b7},{"zeta",0x3b6},{"epsilon",0x3b5},{"delta",0x3b4},{"A",0x41},{"AE",0xc6},{"Aacute",0xc1},{"Abreve",0x102},{"Acircumflex",0xc2},{"Adieresis",0xc4},{"Agrave",0xc0},{"Aring",0xc5},{"Atilde",0xc3},{"B",0x42},{"C",0x43},{"Ccaron",0x10c},{"Ccedilla",0xc7},{"D",0x44},{"E",0x45},{"Eacute",0xc9},{"Ecircumflex",0xca},{"Edieresis",0xcb},{"Egrave",0xc8},{"Eth",0xd0},{"Euro",0x20ac},{"F",0x46},{"G",0x47},{"Gbreve",0x11e},{"H",0x48},{"I",0x49},{"Iacute",0xcd},{"Icircumflex",0xce},{"Idieresis",0xcf},{"Igrave",0xcc},{"J",0x4a},{"K",0x4b},{"L",0x4c},{"Lslash",0x141},{"M",0x4d},{"N",0x4e},{"Ntilde",0xd1},{"O",0x4f},{"OE",0x152},{"Oacute",0xd3},{"Ocircumflex",0xd4},{"Odieresis",0xd6},{"Ograve",0xd2},{"Oslash",0xd8},{"Otilde",0xd5},{"P",0x50},{"Q",0x51},{"R",0x52},{"S",0x53},{"Scaron",0x160},{"Scedilla",0x15e},{"T",0x54},{"Thorn",0xde},{"U",0x55},{"Uacute",0xda},{"Ucircumflex",0xdb},{"Udieresis",0xdc},{"Ugrave",0xd9},{"V",0x56},{"W",0x57},{"X",0x58},{"Y",0x59},{"Yacute",0xdd},{"Ydieresis",0x178},{"Z",0x5a},{"Zcaron",0x17d},{"a",0x61},{"aacute",0xe1},{"abreve",0x103},{"acircumflex",0xe2},{"acute",0xb4},{"adieresis",0xe4},{"ae",0xe6},{"afii10017",0x410},{"afii10065",0x430},{"agrave",0xe0},{"alpha",0x3b1},{"ampersand",0x26},{"approxequal",0x2248},{"aring",0xe5},{"arrowleft",0x2190},{"arrowright",0x2192},{"asciicircum",0x5e},{"asciitilde",0x7e},{"asterisk",0x2a},{"at",0x40},{"atilde",0xe3},{"b",0x62},{"backslash",0x5c},{"bar",0x7c},{"beta",0x3b2},{"braceleft",0x7b},{"braceright",0x7d},{"bracketleft",0x5b},{"bracketright",0x5d},{"breve",0x2d8},{"brokenbar",0xa6},{"bullet",0x2022},{"c",0x63},{"caron",0x2c7},{"ccaron",0x10d},{"ccedilla",0xe7},{"cedilla",0xb8},{"cent",0xa2},{"circumflex",0x2c6},{"colon",0x3a},{"comma",0x2c},{"copyright",0xa9},{"currency",0xa4},{"d",0x64},{"dagger",0x2020},{"daggerdbl",0x2021},{"degree",0xb0},{"dieresis",0xa8},{"divide",0xf7},{"dollar",0x24},{"dotaccent",0x2d9},{"dotlessi",0x131},{"e",0x65},{"eacute",0xe9},{"ecircumflex",0xea},{"edieresis",0xeb},{"egrave",0xe8},{"eight",0x38},{"ellipsis",0x2026},{"emdash",0x2014},{"endash",0x2013},{"equal",0x3d},{"eth",0xf0},{"exclam",0x21},{"exclamdown",0xa1},{"f",0x66},{"fi",0xfb01},{"five",0x35},{"fl",0xfb02},{"florin",0x192},{"four",0x34},{"fraction",0x2044},{"g",0x67},{"gamma",0x3b3},{"gbreve",0x11f},{"germandbls",0xdf},{"grave",0x60},{"greater",0x3e},{"greaterequal",0x2265},{"guillemotleft",0xab},{"guillemotright",0xbb},{"guilsinglleft",0x2039},{"guilsinglright",0x203a},{"h",0x68},{"hungarumlaut",0x2dd},{"hyphen",0x2d},{"i",0x69},{"iacute",0xed},{"icircumflex",0xee},{"idieresis",0xef},{"igrave",0xec},{"infinity",0x221e},{"integral",0x222b},{"j",0x6a},{"k",0x6b},{"l",0x6c},{"lambda",0x3bb},{"less",0x3c},{"lessequal",0x2264},{"logicalnot",0xac},{"lozenge",0x25ca},{"lslash",0x142},{"m",0x6d},{"macron",0xaf},{"minus",0x2212},{"mu",0xb5},{"multiply",0xd7},{"n",0x6e},{"nine",0x39},{"notequal",0x2260},{"ntilde",0xf1},{"numbersign",0x23},{"o",0x6f},{"oacute",0xf3},{"ocircumflex",0xf4},{"odieresis",0xf6},{"oe",0x153},{"ogonek",0x2db},{"ograve",0xf2},{"one",0x31},{"onehalf",0xbd},{"onequarter",0xbc},{"ordfeminine",0xaa},{"ordmasculine",0xba},{"oslash",0xf8},{"otilde",0xf5},{"p",0x70},{"paragraph",0xb6},{"parenleft",0x28},{"parenright",0x29},{"partialdiff",0x2202},{"percent",0x25},{"period",0x2e},{"periodcentered",0xb7},{"perthousand",0x2030},{"pi",0x3c0},{"plus",0x2b},{"plusminus",0xb1},{"q",0x71},{"question",0x3f},{"questiondown",0xbf},{"quotedbl",0x22},{"quotedblbase",0x201e},{"quotedblleft",0x201c},{"quotedblright",0x201d},{"quoteleft",0x2018},{"quoteright",0x2019},{"quotesinglbase",0x201a},{"quotesingle",0x27},{"r",0x72},{"radical",0x221a},{"registered",0xae},{"ring",0x2da},{"s",0x73},{"scaron",0x161},{"section",0xa7},{"semicolon",0x3b},{"seven",0x37},{"six",0x36},{"slash",0x2f},{"space",0x20},{"sterling",0xa3},{"summation",0x2211},{"t",0x74},{"thorn",0xfe},{"three",0x33},{"threequarters",0xbe},{"tilde",0x2dc},{"trademark",0x2122},{"two",0x32},{"u",0x75},{"uacute",0xfa},{"ucircumflex",0xfb},{"udieresis",0xfc},{"ugrave",0xf9},{"underscore",0x5f},{"v",0x76},{"w",0x77},{"x",0x78},{"y",0x79},{"yacute",0xfd},{"ydieresis",0xff},{"yen",0xa5},{"z",0x7a},{"zcaron",0x17e},{"zero",0x30}};
const std::vector<std::pair<std::string, uint32_t>>& glyphNames() { static const std::vector<std::pair<std::string, uint32_t>> v = [] { std::vector<std::pair<std::string, uint32_t>> r; for (auto& n : NAMES) r.push_back({ n.n, n.u }); return r; }(); return v; }
uint32_t glyphName(const std::string& name) {
    for (auto& n : glyphNames()) if (n.first == name) return n.second;
    auto hex = [](const std::string& s) -> uint32_t { for (char c : s) if (!isdigit((unsigned char)c) && !(c >= 'A' && c <= 'F')) return 0; uint32_t v = (uint32_t)strtoul(s.c_str(), nullptr, 16); return v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) ? 0 : v; };
    if (name.size() == 7 && name.compare(0, 3, "uni") == 0) return hex(name.substr(3));
    if (name.size() >= 5 && name.size() <= 7 && name[0] == 'u') return hex(name.substr(1));
    return 0;
}
uint32_t decode(Enc e, uint8_t c) { return e == Enc::WinAnsi ? WIN[c] : e == Enc::MacRoman ? MAC[c] : STD[c]; }
static uint32_t canon(uint32_t c) { switch (c) { case 0xA0: return 0x20; case 0xAD: case 0x2010: return 0x2D; case 0x3BC: return 0xB5; case 0x2126: return 0x3A9; case 0x2206: return 0x394; case 0x2215: return 0x2044; case 0x2219: return 0xB7; case 0x2C9: return 0xAF; case 0x21A: return 0x162; case 0x21B: return 0x163; default: return c; } }
bool same(uint32_t a, uint32_t b) { return canon(a) == canon(b); }
std::vector<uint32_t> cps(const std::string& s) {
    std::vector<uint32_t> r; for (size_t i = 0; i < s.size();) { unsigned char c = (unsigned char)s[i]; int n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0; if (!n || i + n > s.size()) throw SyntaxError{ "not UTF-8", i }; uint32_t v = n == 1 ? c : c & (0x7F >> n); for (int k = 1; k < n; k++) { if (((unsigned char)s[i + k] & 0xC0) != 0x80) throw SyntaxError{ "not UTF-8", i }; v = v << 6 | ((unsigned char)s[i + k] & 0x3F); } r.push_back(v); i += n; } return r;
}
std::vector<uint32_t> utf16cps(const std::string& s) {
    std::vector<uint32_t> r; if (s.size() % 2) throw SyntaxError{ "odd UTF-16 string", 0 }; auto u = [&](size_t i) { return (uint32_t)(unsigned char)s[i] << 8 | (unsigned char)s[i + 1]; };
    for (size_t i = 0; i < s.size(); i += 2) { uint32_t a = u(i); if (a >= 0xD800 && a < 0xDC00) { if (i + 4 > s.size()) throw SyntaxError{ "lone surrogate", 0 }; uint32_t b = u(i + 2); if (b < 0xDC00 || b > 0xDFFF) throw SyntaxError{ "lone surrogate", 0 }; r.push_back(0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00)); i += 2; } else if (a >= 0xDC00 && a < 0xE000) throw SyntaxError{ "lone surrogate", 0 }; else r.push_back(a); } return r;
}
bool CMap::inSpace(const std::string& c) const { for (auto& r : space) { if (r.first.size() != c.size()) continue; bool in = true; for (size_t i = 0; i < c.size(); i++) if ((unsigned char)c[i] < (unsigned char)r.first[i] || (unsigned char)c[i] > (unsigned char)r.second[i]) in = false; if (in) return true; } return false; }
bool CMap::next(const std::string& s, size_t& at, std::string& code) const { for (size_t n = 1; n <= 4 && at + n <= s.size(); n++) { code = s.substr(at, n); if (inSpace(code)) { at += n; return true; } } return false; }
bool CMap::split(const std::string& s, std::vector<std::string>& codes) const { codes.clear(); std::string c; for (size_t at = 0; at < s.size();) { if (!next(s, at, c)) return false; codes.push_back(c); } return true; }
static uint64_t num(const std::string& c) { uint64_t v = 0; for (char x : c) v = v << 8 | (unsigned char)x; return v; }
static std::string code(uint64_t v, size_t n) { std::string s(n, 0); for (size_t i = n; i-- > 0; v >>= 8) s[i] = (char)(v & 255); return s; }
CMap parseCMap(const std::string& data) {
    CMap m; Lexer lx(data); lx.allowRefs = false; std::vector<V> st; auto bad = [&](const std::string& w) { throw SyntaxError{ w, lx.pos }; };
    auto isVal = [&]() { lx.skipWs(); if (lx.pos >= data.size()) bad("character map ends early"); char c = data[lx.pos]; return c == '<' || c == '(' || c == '[' || c == '/' || isdigit((unsigned char)c) || c == '-' || c == '+' || c == '.'; };
    auto str = [&](const char* what) { V v = lx.value(); if (v.k != K::Str || v.s.empty() || v.s.size() > 4) bad(std::string("bad ") + what); return v.s; };
    while (!lx.atEnd()) {
        if (isVal()) { st.push_back(lx.value()); continue; }
        std::string kw = lx.keyword(); if (kw.empty()) bad("unexpected character"); 
        if (kw.compare(0, 5, "begin") == 0 && kw != "begin" && kw != "begincmap") {
            std::string what = kw.substr(5), end = "end" + what; if (st.empty() || st.back().k != K::Int) bad("no count before " + kw); int64_t n = st.back().i, k = 0; st.clear();
            while (isVal()) { k++;
                std::string lo = str("code"); if (what == "codespacerange") { std::string hi = str("code"); if (hi.size() != lo.size()) bad("code space range of two lengths"); for (size_t i = 0; i < lo.size(); i++) if ((unsigned char)lo[i] > (unsigned char)hi[i]) bad("empty code space range"); m.space.push_back({ lo, hi }); continue; }
                std::string hi = lo; if (what == "bfrange" || what == "cidrange" || what == "notdefrange") { hi = str("code"); if (hi.size() != lo.size() || num(hi) < num(lo)) bad("bad range"); if (what == "bfrange" && lo.compare(0, lo.size() - 1, hi, 0, hi.size() - 1) != 0) bad("range over more than the last byte"); }
                V d = lx.value(); uint64_t count = num(hi) - num(lo) + 1;
                if (what == "cidchar" || what == "cidrange") { if (d.k != K::Int || d.i < 0) bad("CID is no number"); for (uint64_t i = 0; i < count; i++) if (!m.cid.insert({ code(num(lo) + i, lo.size()), (uint32_t)(d.i + i) }).second) bad("code mapped twice"); }
                else if (what == "bfchar" || what == "bfrange") { if (d.k == K::Arr) { if (what == "bfchar" || d.a.size() != count) bad("array of a wrong length"); for (uint64_t i = 0; i < count; i++) { if (d.a[i].k != K::Str) bad("no string in the array"); if (!m.uni.insert({ code(num(lo) + i, lo.size()), utf16cps(d.a[i].s) }).second) bad("code mapped twice"); } } else { if (d.k != K::Str || d.s.empty()) bad("no string to map to"); if ((unsigned char)d.s.back() + count - 1 > 255 && count > 1) bad("range overflows the last byte of the string"); for (uint64_t i = 0; i < count; i++) { std::string t = d.s; t.back() = (char)((unsigned char)t.back() + i); if (!m.uni.insert({ code(num(lo) + i, lo.size()), utf16cps(t) }).second) bad("code mapped twice"); } } }
                else if (what != "notdefchar" && what != "notdefrange") bad("unknown section " + kw);
            }
            std::string e = lx.keyword(); if (e != end) bad("section " + kw + " closed by " + e); if (k != n) bad(kw + " announces " + std::to_string(n) + " entries but has " + std::to_string(k)); continue;
        }
        st.clear();
    }
    if (m.space.empty()) bad("no code space"); for (size_t i = 0; i < m.space.size(); i++) for (size_t j = 0; j < i; j++) { size_t n = std::min(m.space[i].first.size(), m.space[j].first.size()); bool over = true; for (size_t k = 0; k < n; k++) if ((unsigned char)m.space[i].second[k] < (unsigned char)m.space[j].first[k] || (unsigned char)m.space[j].second[k] < (unsigned char)m.space[i].first[k]) over = false; if (over) bad("code space ranges overlap"); }
    for (auto& p : m.uni) if (!m.inSpace(p.first)) bad("mapped code outside of the code space"); for (auto& p : m.cid) if (!m.inSpace(p.first)) bad("mapped code outside of the code space");
    return m;
}
}
