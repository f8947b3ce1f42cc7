// Independent reference model of PDF syntax, used as the oracle. Nothing here
// calls into pdfmm (the conversions to and from pdfmm values are in refmm.h).
#pragma once
#include "pbt.h"
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace ref {

enum class K { Null, Bool, Int, Real, Str, Name, Arr, Dict, Ref };

// A PDF value. Strings and names hold their raw (unescaped) bytes.
struct V {
    K k = K::Null;
    bool b = false, hex = false;
    int64_t i = 0;          // Int, or object number of Ref
    double d = 0;
    uint32_t gen = 0;
    std::string s;
    std::vector<V> a;
    std::map<std::string, V> m;
    std::string lex;        // Real: exact spelling, when it matters

    static V null() { return V(); }
    static V boolean(bool x) { V v; v.k = K::Bool; v.b = x; return v; }
    static V integer(int64_t x) { V v; v.k = K::Int; v.i = x; return v; }
    static V real(double x) { V v; v.k = K::Real; v.d = x; return v; }
    static V str(std::string x, bool hex = false) { V v; v.k = K::Str; v.s = std::move(x); v.hex = hex; return v; }
    static V name(std::string x) { V v; v.k = K::Name; v.s = std::move(x); return v; }
    static V arr(std::vector<V> x = {}) { V v; v.k = K::Arr; v.a = std::move(x); return v; }
    static V dict(std::map<std::string, V> x = {}) { V v; v.k = K::Dict; v.m = std::move(x); return v; }
    static V refTo(int64_t num, uint32_t gen = 0) { V v; v.k = K::Ref; v.i = num; v.gen = gen; return v; }
    bool isNum() const { return k == K::Int || k == K::Real; }
    double num() const { return k == K::Int ? (double)i : d; }
    const V* get(const std::string& key) const { auto it = m.find(key); return it == m.end() ? nullptr : &it->second; }
};

struct DiffOpt {
    double realTol = 0;        // absolute tolerance for reals; negative: exact
    bool numKinds = false;     // Int and Real must agree
    bool nullAbsent = true;    // dictionary entry null == absent
};
// Empty if equal, else a description of the first difference
std::string diff(const V& got, const V& want, const DiffOpt& o = {}, const std::string& path = "");
std::string show(const V& v, unsigned depth = 0);

// ---- generation --------------------------------------------------------------
struct GenOpt {
    unsigned depth = 3, width = 6;
    bool refs = true, nulls = true, hugeReals = false, rawNames = true;
    unsigned maxStr = 40;
    int64_t maxObj = 30;       // references point to [1, maxObj], generation 0
    bool dirtyStrings = true;  // arbitrary bytes
    bool dictNulls = false;
};
V gen(pbt::Src& g, const GenOpt& o, unsigned depth = 0);
V genScalar(pbt::Src& g, const GenOpt& o);
std::string genName(pbt::Src& g, bool raw);
double genReal(pbt::Src& g, bool huge);

// ---- lexical writing -----------------------------------------------------------
// Style 0: plain canonical. Otherwise random legal spelling driven by g.
std::string spell(const V& v, pbt::Src* g = nullptr);
std::string spellReal(double d);

// ---- parsing -------------------------------------------------------------------
struct SyntaxError { std::string msg; size_t pos; };
// Strict parser for one buffer
class Lexer {
public:
    Lexer(std::string_view b, size_t pos = 0) : m_b(b), pos(pos) {}
    V value();                          // throws SyntaxError
    std::string keyword();              // regular characters
    void skipWs();                      // white space and comments
    bool atEnd() { skipWs(); return pos >= m_b.size(); }
    bool accept(std::string_view kw);   // after white space
    int64_t integer();
    std::string_view data() const { return m_b; }
    bool allowRefs = true;
private:
    V number(); std::string litString(); std::string hexString(); std::string name();
    std::string_view m_b;
    unsigned m_depth = 0;
public:
    size_t pos;
};
bool isWs(char c);
bool isDelim(char c);
bool isRegular(char c);

// ---- documents -----------------------------------------------------------------
struct Obj {
    V v; bool hasStream = false; std::string raw; uint32_t gen = 0;
    size_t offset = 0; bool compressed = false; int revision = 0; int container = 0, index = 0;
};
struct Doc {
    std::map<int64_t, Obj> objs;
    V trailer = V::dict();
    std::string version = "1.7";
};
struct Section {            // one cross-reference section as found in a file
    size_t offset = 0; bool isStream = false; V trailer; int64_t streamObj = 0;
    struct E { int type; int64_t a; int64_t b; };     // 0 free(next,gen) 1 used(offset,gen) 2 compressed(objstm,idx)
    std::map<int64_t, E> entries;
};
struct ReadResult { Doc doc; std::vector<Section> sections; /* newest first */ };
// Strictly conforming reader: any deviation is a pbt failure with tag "nonconforming-..."
// `decrypt` is called when the plain objects are read, before those in object streams
ReadResult readStrict(std::string_view file, const std::function<void(Doc&)>& decrypt = nullptr);
// value of a stream after all of its filters; throws SyntaxError when undecodable
std::string decodeStream(const V& dict, std::string_view raw, const Doc* doc = nullptr);
const V& resolve(const Doc& d, const V& v);

// ---- filters -------------------------------------------------------------------
std::string hexDecode(std::string_view in);
std::string a85Decode(std::string_view in);
std::string rlDecode(std::string_view in);
std::string lzwDecode(std::string_view in, int early);
std::string inflateAll(std::string_view in);
std::string predictorDecode(std::string_view in, int predictor, int colors, int bpc, int columns);
std::string hexEncode(std::string_view in, pbt::Src* g);
std::string a85Encode(std::string_view in, pbt::Src* g);
std::string rlEncode(std::string_view in, pbt::Src* g);
std::string lzwEncode(std::string_view in, int early, pbt::Src* g);
std::string deflateAll(std::string_view in, int level = 6);
// encodes whole rows only (in.size() multiple of the row size)
std::string predictorEncode(std::string_view in, int predictor, int colors, int bpc, int columns, pbt::Src* g);

// ---- document writing --------------------------------------------------------------
struct Layout {                // of one revision
    int xref = 0;              // 0 table, 1 stream, 2 hybrid
    bool objStreams = false;
};
// Serialises `d` as the first revision of a file. Offsets are relative to the
// start of the returned text plus `base`.
struct FileWriter {
    pbt::Src& g;
    std::string out;
    int64_t prev = -1;         // offset of the last xref section
    bool noise = true;         // random white space, comments
    std::string eol = "\n";
    int64_t nextFree = 0;      // next number usable for helper objects (object/xref streams)
    std::set<int64_t> helper;  // numbers taken by helpers
    std::map<int64_t, uint32_t> freeAll; // the free list so far
    std::function<void(int64_t, Obj&)> crypt; // applied to every top level object
    FileWriter(pbt::Src& g) : g(g) {}
    void header(const std::string& version);
    // writes the given objects (num -> Obj), frees the given numbers, then xref + trailer.
    void revision(const std::map<int64_t, Obj>& objs, const std::map<int64_t, uint32_t>& freed, V trailer, const Layout& l, bool first);
    std::string body(int64_t num, const Obj& o);
    void ws(bool must = true);
};

// ---- text ---------------------------------------------------------------------------
// PDFDocEncoding -> code point (0 = undefined)
extern const uint32_t PdfDoc[256];
void appendUtf8(std::string& s, uint32_t cp);
std::string utf8(const std::vector<uint32_t>& cps);
std::vector<uint32_t> fromUtf8(std::string_view s);      // throws SyntaxError when malformed
std::string utf16be(const std::vector<uint32_t>& cps);   // without BOM
std::vector<uint32_t> fromUtf16be(std::string_view s);
// text -> bytes the way PDF text strings are stored; prefers PDFDocEncoding
std::string textBytes(std::string_view utf8);
// bytes -> text as a conforming reader would
std::string bytesText(std::string_view bytes);
// random text: 0 ascii printable 1 latin1 2 bmp 3 any
std::vector<uint32_t> genText(pbt::Src& g, unsigned maxlen, int repertoire);

// ---- crypto ---------------------------------------------------------------------------
std::string md5(std::string_view);
std::string sha(int bits, std::string_view);
std::string rc4(std::string_view key, std::string_view data);
std::string aesCbcDecrypt(std::string_view key, std::string_view iv, std::string_view data, bool padding);
std::string aesCbcEncrypt(std::string_view key, std::string_view iv, std::string_view data, bool padding);
std::string aesEcbDecrypt(std::string_view key, std::string_view data);

} // namespace ref
