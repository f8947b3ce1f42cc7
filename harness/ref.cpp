#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>

namespace ref {

bool isWs(char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
bool isDelim(char c) { return c && strchr("()<>[]{}/%", c); }
bool isRegular(char c) { return !isWs(c) && !isDelim(c); }

// ---- diff / show ------------------------------------------------------------------
static const char* kn(K k) { static const char* n[] = { "null", "bool", "int", "real", "string", "name", "array", "dict", "ref" }; return n[(int)k]; }
std::string show(const V& v, unsigned depth) {
    std::ostringstream o; o.precision(17);
    switch (v.k) {
        case K::Null: return "null";
        case K::Bool: return v.b ? "true" : "false";
        case K::Int: o << v.i; return o.str();
        case K::Real: o << v.d << "r"; return o.str();
        case K::Str: return (v.hex ? "hex(" : "(") + pbt::show(v.s, 80) + ")";
        case K::Name: return "/" + pbt::show(v.s, 80);
        case K::Ref: o << v.i << " " << v.gen << " R"; return o.str();
        case K::Arr: { std::string s = "["; unsigned n = 0; for (auto& x : v.a) { if (n++ > 30) { s += "..."; break; } s += (s.size() > 1 ? " " : "") + show(x, depth + 1); } return s + "]"; }
        case K::Dict: { std::string s = "<<"; unsigned n = 0; for (auto& x : v.m) { if (n++ > 30) { s += "..."; break; } s += " /" + pbt::show(x.first, 60) + " " + show(x.second, depth + 1); } return s + " >>"; }
    }
    return "?";
}
std::string diff(const V& g, const V& w, const DiffOpt& o, const std::string& p) {
    auto bad = [&]() { return (p.empty() ? "value" : p) + ": got " + show(g) + " want " + show(w); };
    if (g.isNum() && w.isNum()) {
        if (o.numKinds && g.k != w.k) return bad();
        if (g.k == K::Int && w.k == K::Int) return g.i == w.i ? "" : bad();
        double a = g.num(), b = w.num(), t = o.realTol < 0 ? 0 : std::max(o.realTol, std::fabs(b) * 4e-16);
        return std::fabs(a - b) <= t ? "" : bad();
    }
    if (g.k != w.k) return bad() + " (" + kn(g.k) + " vs " + kn(w.k) + ")";
    switch (g.k) {
        case K::Null: return "";
        case K::Bool: return g.b == w.b ? "" : bad();
        case K::Str: case K::Name: return g.s == w.s ? "" : bad();
        case K::Ref: return g.i == w.i && g.gen == w.gen ? "" : bad();
        case K::Arr:
            if (g.a.size() != w.a.size()) return bad() + " (sizes)";
            for (size_t i = 0; i < g.a.size(); i++) { auto r = diff(g.a[i], w.a[i], o, p + "[" + std::to_string(i) + "]"); if (!r.empty()) return r; }
            return "";
        case K::Dict: {
            for (auto& x : w.m) { auto y = g.get(x.first);
                if (!y) { if (o.nullAbsent && x.second.k == K::Null) continue; return p + "/" + pbt::show(x.first) + ": missing, want " + show(x.second); }
                auto r = diff(*y, x.second, o, p + "/" + pbt::show(x.first)); if (!r.empty()) return r; }
            for (auto& x : g.m) if (!w.m.count(x.first)) { if (o.nullAbsent && x.second.k == K::Null) continue; return p + "/" + pbt::show(x.first) + ": unexpected " + show(x.second); }
            return "";
        }
        default: return "";
    }
}

// ---- generation -------------------------------------------------------------------------
double genReal(pbt::Src& g, bool huge) {
    switch (g.weighted({ 6, 3, 2, 1, huge ? 2u : 0u })) {
        case 0: return (double)g.range(-100000, 100000) / (double)g.pick<int>({ 2, 4, 10, 100, 1000, 1000000 });
        case 1: return (double)g.range(-1000000000, 1000000000) / 1000000.0;
        case 2: return (double)g.range(-9, 9) + (double)g.range(0, 999999) / 1000000.0;
        case 3: return (double)g.i64() / 64.0;
        default: { double x = (double)g.range(-999999, 999999); int e = (int)g.range(-8, 30); return x * std::pow(10.0, e); }
    }
}
std::string genName(pbt::Src& g, bool raw) {
    if (raw && g.chance(1, 40)) return "";
    switch (g.weighted({ 5, 2, raw ? 3u : 0u, 1 })) {
        case 0: { static const std::vector<std::string> n = { "A", "B", "Type", "Kids", "Foo", "Name1", "ASomewhatLongerName", "A;Name_With-Various***Characters?", "1.2", "$$", "@pattern", ".notdef", "Lime Green", "paired()parentheses", "The_Key_of_F#_Minor", "AB", "a", "Parent", "Annots", "Next", "Prev", "P", "Resources", "Contents", "Names", "Font", "XObject", "Size", "Root", "ID" }; return g.pick(n); }
        case 1: { std::string s; unsigned n = 1 + g.size(10); for (unsigned i = 0; i < n; i++) s += (char)('a' + g.draw(25)); return s; }
        case 2: { std::string s; unsigned n = 1 + g.size(24); for (unsigned i = 0; i < n; i++) { char c = g.chance(1, 2) ? (char)(33 + g.draw(93)) : (char)g.range(1, 255); s += c; } return s; }
        default: { std::string s; unsigned n = 1 + g.size(120); for (unsigned i = 0; i < n; i++) s += (char)(33 + g.draw(93)); return s; }
    }
}
V genScalar(pbt::Src& g, const GenOpt& o) {
    switch (g.weighted({ 4, 2, 3, 5, 4, o.nulls ? 1u : 0u, o.refs ? 3u : 0u })) {
        case 0: return V::integer(g.i64());
        case 1: return V::boolean(g.coin());
        case 2: return V::real(genReal(g, o.hugeReals));
        case 3: { bool hex = g.coin(); return V::str(o.dirtyStrings ? g.bytes(o.maxStr) : [&] { std::string s; unsigned n = g.size(o.maxStr); while (n--) s += (char)(32 + g.draw(94)); return s; }(), hex); }
        case 4: return V::name(genName(g, o.rawNames));
        case 5: return V::null();
        default: return V::refTo(g.range(1, o.maxObj));
    }
}
V gen(pbt::Src& g, const GenOpt& o, unsigned depth) {
    unsigned k = depth >= o.depth ? 0 : g.weighted({ 5, 2, 3 });
    if (k == 0) return genScalar(g, o);
    unsigned n = g.size(o.width);
    if (k == 1) { V v = V::arr(); for (unsigned i = 0; i < n; i++) v.a.push_back(gen(g, o, depth + 1)); return v; }
    V v = V::dict();
    for (unsigned i = 0; i < n; i++) { auto key = genName(g, o.rawNames); V x = gen(g, o, depth + 1); if (x.k == K::Null && !o.dictNulls) continue; v.m[key] = x; }
    return v;
}

// ---- spelling --------------------------------------------------------------------------------
std::string spellReal(double d) {
    char b[512];
    for (int p = 1; p < 30; p++) { snprintf(b, sizeof b, "%.*f", p, d); if (strtod(b, 0) == d) return b; }
    snprintf(b, sizeof b, "%.30f", d); return b;
}
namespace {
struct Speller {
    std::string out; pbt::Src* g; bool emptyName = false;
    void comment() {
        out += '%'; unsigned n = g->size(8);
        static const char cs[] = "abc <>[]()/%0 1 R endobj \\ stream";
        for (unsigned i = 0; i < n; i++) out += cs[g->draw(sizeof(cs) - 2)];
        out += g->pick<const char*>({ "\n", "\r", "\r\n" });
    }
    void ws(bool must) {
        if (!g) { if (must) out += ' '; return; }
        unsigned n = must ? 1 + (g->chance(1, 4) ? g->size(3) : 0) : (g->chance(1, 5) ? 1 + g->size(2) : 0);
        for (unsigned i = 0; i < n; i++) {
            if (g->chance(1, 12)) { comment(); continue; }
            static const char w[] = { ' ', '\n', '\r', '\t', '\f', '\0' };
            out += w[g->weighted({ 8, 4, 2, 2, 1, 1 })];
        }
    }
    void token(const std::string& t) {
        bool must = !out.empty() && !t.empty() && isRegular(t[0]) && (isRegular(out.back()) || emptyName);
        if (!out.empty()) ws(must); else if (g && g->chance(1, 6)) ws(false);
        out += t; emptyName = false;
    }
    std::string num(std::string body) { // body: [-]digits[.digits]
        if (!g) return body;
        bool neg = body[0] == '-'; if (neg) body = body.substr(1);
        auto dot = body.find('.');
        if (dot != std::string::npos) {
            if (g->chance(1, 5)) while (body.back() == '0') body.pop_back();
            else if (g->chance(1, 5)) body += std::string(g->draw(3), '0');
            if (body[0] == '0' && body.size() > 2 && body[1] == '.' && isdigit(body[2]) && g->chance(1, 4)) body = body.substr(1);
        }
        if (g->chance(1, 8)) body = std::string(1 + g->draw(3), '0') + body;
        if (neg) return "-" + body;
        return g->chance(1, 8) ? "+" + body : body;
    }
    std::string lit(const std::string& s) {
        std::string r = "(";
        if (!g) { for (char c : s) { if (c == '(' || c == ')' || c == '\\') { r += '\\'; r += c; } else if (c == '\r') r += "\\r"; else r += c; } return r + ")"; }
        // parentheses that may stay unescaped: positions forming balanced pairs
        std::vector<bool> rawParen(s.size(), false);
        if (g->chance(2, 3)) { std::vector<size_t> st; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '(') st.push_back(i); else if (s[i] == ')' && !st.empty()) { rawParen[i] = rawParen[st.back()] = true; st.pop_back(); } } }
        unsigned style = g->draw(3);   // 0 mostly raw, 1 mostly octal, 2 mixed, 3 mixed
        bool lastShortOct = false, lastRawCr = false;
        for (size_t i = 0; i < s.size(); i++) {
            unsigned char c = s[i];
            if (g->chance(1, 25)) { r += '\\'; r += g->pick<const char*>({ "\n", "\r\n", "\r" }); lastShortOct = false; lastRawCr = r.back() == '\r'; }
            bool oct = (style == 1 && g->chance(3, 4)) || (style >= 2 && g->chance(1, 4));
            if (oct && !rawParen[i]) {
                char b[8]; int w = g->chance(1, 2) ? 3 : 1;
                snprintf(b, sizeof b, w == 3 ? "\\%03o" : "\\%o", c); r += b; lastShortOct = strlen(b) < 4; lastRawCr = false; continue;
            }
            std::string e;
            if ((c == '(' || c == ')')) e = rawParen[i] ? std::string(1, c) : std::string("\\") + (char)c;
            else if (c == '\\') e = "\\\\";
            else if (c == '\r') e = "\\r";
            else if (c == '\n') { /* raw CR and CR LF are not used: pdfmm keeps them, and its tests pin that */ e = g->coin() ? "\\n" : "\n"; if (lastRawCr && e == "\n") e = "\\n"; }
            else if (c == '\t') e = g->coin() ? "\\t" : "\t";
            else if (c == '\b') e = g->coin() ? "\\b" : "\b";
            else if (c == '\f') e = g->coin() ? "\\f" : "\f";
            else if (g->chance(1, 20) && !strchr("nrtbf()\\01234567\n\r", c)) { e = "\\"; e += (char)c; }
            else e = std::string(1, c);
            if (lastShortOct && e[0] >= '0' && e[0] <= '7') { char b[8]; snprintf(b, sizeof b, "\\%03o", c); e = b; }
            r += e; lastShortOct = false; lastRawCr = e.back() == '\r';
            if (lastRawCr && i + 1 < s.size() && s[i + 1] == '\n') { /* next LF must not merge */ }
        }
        return r + ")";
    }
    std::string hexs(const std::string& s) {
        std::string h = pbt::hex(s, s.size() + 1), r = "<";
        if (!g) return r + h + ">";
        if (!h.empty() && h.back() == '0' && g->chance(1, 2)) h.pop_back();
        bool up = g->coin();
        for (char c : h) { r += up && g->chance(9, 10) ? (char)toupper(c) : c; if (g->chance(1, 12)) r += g->pick<char>({ ' ', '\n', '\r', '\t', '\f' }); }
        return r + ">";
    }
    std::string nm(const std::string& s) {
        std::string r = "/"; char b[8];
        for (unsigned char c : s) {
            bool must = !isRegular((char)c) || c == '#' || (!g && (c < 33 || c > 126));
            if (must || (g && (c < 33 || c > 126) && g->chance(2, 3)) || (g && g->chance(1, 12))) { snprintf(b, sizeof b, g && g->coin() ? "#%02x" : "#%02X", c); r += b; }
            else r += (char)c;
        }
        return r;
    }
    void val(const V& v) {
        switch (v.k) {
            case K::Null: token("null"); break;
            case K::Bool: token(v.b ? "true" : "false"); break;
            case K::Int: token(num(std::to_string(v.i))); break;
            case K::Real: token(v.lex.empty() ? num(spellReal(v.d)) : v.lex); break;
            case K::Str: token(v.hex ? hexs(v.s) : lit(v.s)); break;
            case K::Name: token(nm(v.s)); emptyName = v.s.empty(); break;
            case K::Ref: token(std::to_string(v.i)); token(std::to_string(v.gen)); token("R"); break;
            case K::Arr: token("["); for (auto& x : v.a) val(x); token("]"); break;
            case K::Dict: token("<<");
                if (g && v.m.size() > 1 && g->coin()) { // other key order
                    std::vector<const std::pair<const std::string, V>*> ks; for (auto& x : v.m) ks.push_back(&x);
                    for (size_t i = ks.size() - 1; i > 0; i--) std::swap(ks[i], ks[g->draw(i)]);
                    for (auto* x : ks) { token(nm(x->first)); emptyName = x->first.empty(); val(x->second); }
                } else for (auto& x : v.m) { token(nm(x.first)); emptyName = x.first.empty(); val(x.second); }
                token(">>"); break;
        }
    }
};
}
std::string spell(const V& v, pbt::Src* g) { Speller s; s.g = g; s.val(v); return s.out; }

// ---- parsing ------------------------------------------------------------------------------------
void Lexer::skipWs() {
    while (pos < m_b.size()) {
        if (isWs(m_b[pos])) pos++;
        else if (m_b[pos] == '%') { while (pos < m_b.size() && m_b[pos] != '\n' && m_b[pos] != '\r') pos++; }
        else break;
    }
}
std::string Lexer::keyword() { std::string r; while (pos < m_b.size() && isRegular(m_b[pos])) r += m_b[pos++]; return r; }
bool Lexer::accept(std::string_view kw) {
    size_t save = pos; skipWs(); size_t p = pos;
    if (m_b.substr(p, kw.size()) == kw && (!isRegular(kw.back()) || p + kw.size() >= m_b.size() || !isRegular(m_b[p + kw.size()]))) { pos = p + kw.size(); return true; }
    pos = save; return false;
}
int64_t Lexer::integer() {
    skipWs(); size_t p = pos; std::string k = keyword();
    if (k.empty() || k.find_first_not_of("0123456789") != std::string::npos) throw SyntaxError{ "integer expected, got '" + k + "'", p };
    return strtoll(k.c_str(), 0, 10);
}
V Lexer::number() {
    size_t p = pos; std::string k = keyword();
    size_t i = 0; if (i < k.size() && (k[i] == '+' || k[i] == '-')) i++;
    unsigned digits = 0, dots = 0;
    for (; i < k.size(); i++) { if (isdigit((unsigned char)k[i])) digits++; else if (k[i] == '.') dots++; else throw SyntaxError{ "bad number '" + k + "'", p }; }
    if (!digits || dots > 1) throw SyntaxError{ "bad number '" + k + "'", p };
    if (dots) { V v = V::real(strtod(k.c_str(), 0)); v.lex = k; return v; }
    errno = 0; int64_t x = strtoll(k.c_str(), 0, 10); if (errno) return V::real(strtod(k.c_str(), 0)); // 7.3.3: integers beyond the implementation limit become reals
    return V::integer(x);
}
std::string Lexer::litString() {
    std::string r; int depth = 1; size_t p0 = pos; pos++;
    for (;;) {
        if (pos >= m_b.size()) throw SyntaxError{ "unterminated string", p0 };
        char c = m_b[pos++];
        if (c == '(') { depth++; r += c; }
        else if (c == ')') { if (--depth == 0) return r; r += c; }
        else if (c == '\r') { if (pos < m_b.size() && m_b[pos] == '\n') pos++; r += '\n'; }
        else if (c == '\\') {
            if (pos >= m_b.size()) throw SyntaxError{ "unterminated string", p0 };
            c = m_b[pos++];
            switch (c) {
                case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
                case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                case '\n': break; case '\r': if (pos < m_b.size() && m_b[pos] == '\n') pos++; break;
                default:
                    if (c >= '0' && c <= '7') { int v = c - '0'; for (int k = 0; k < 2 && pos < m_b.size() && m_b[pos] >= '0' && m_b[pos] <= '7'; k++) v = v * 8 + (m_b[pos++] - '0'); r += (char)v; }
                    else r += c;
            }
        } else r += c;
    }
}
std::string Lexer::hexString() {
    std::string h; size_t p0 = pos; pos++;
    for (;;) {
        if (pos >= m_b.size()) throw SyntaxError{ "unterminated hex string", p0 };
        char c = m_b[pos++]; if (c == '>') break; if (isWs(c)) continue;
        if (!isxdigit((unsigned char)c)) throw SyntaxError{ "bad hex digit", pos - 1 };
        h += c;
    }
    if (h.size() % 2) h += '0';
    std::string r; for (size_t i = 0; i < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return r;
}
std::string Lexer::name() {
    pos++; std::string r;
    while (pos < m_b.size() && isRegular(m_b[pos])) {
        char c = m_b[pos++];
        if (c == '#') {
            if (pos + 1 < m_b.size() && isxdigit((unsigned char)m_b[pos]) && isxdigit((unsigned char)m_b[pos + 1])) { int v = (int)strtol(std::string(m_b.substr(pos, 2)).c_str(), 0, 16); if (!v) throw SyntaxError{ "#00 in name", pos }; r += (char)v; pos += 2; continue; }
            throw SyntaxError{ "bad # escape in name", pos };
        }
        r += c;
    }
    return r;
}
V Lexer::value() {
    struct D { unsigned& d; D(unsigned& x) : d(x) { d++; } ~D() { d--; } } dd(m_depth);
    if (m_depth > 300) throw SyntaxError{ "too deep", pos };
    skipWs(); if (pos >= m_b.size()) throw SyntaxError{ "end of data", pos };
    char c = m_b[pos];
    if (c == '/') return V::name(name());
    if (c == '(') return V::str(litString());
    if (c == '[') { pos++; V v = V::arr(); for (;;) { skipWs(); if (pos >= m_b.size()) throw SyntaxError{ "unterminated array", pos }; if (m_b[pos] == ']') { pos++; return v; } v.a.push_back(value()); } }
    if (c == '<') {
        if (pos + 1 < m_b.size() && m_b[pos + 1] == '<') {
            pos += 2; V v = V::dict();
            for (;;) {
                skipWs(); if (pos >= m_b.size()) throw SyntaxError{ "unterminated dictionary", pos };
                if (m_b[pos] == '>') { if (pos + 1 >= m_b.size() || m_b[pos + 1] != '>') throw SyntaxError{ "bad >", pos }; pos += 2; return v; }
                if (m_b[pos] != '/') throw SyntaxError{ "dictionary key expected", pos };
                std::string k = name(); if (v.m.count(k)) throw SyntaxError{ "duplicate dictionary key /" + k, pos };
                v.m[k] = value();
            }
        }
        return V::str(hexString(), true);
    }
    if (isdigit((unsigned char)c) || c == '+' || c == '-' || c == '.') {
        V v = number();
        if (allowRefs && v.k == K::Int && v.i >= 0 && isdigit((unsigned char)c)) {
            size_t save = pos; skipWs();
            if (pos < m_b.size() && isdigit((unsigned char)m_b[pos])) {
                std::string k = keyword();
                if (k.find_first_not_of("0123456789") == std::string::npos) { skipWs(); if (pos < m_b.size() && m_b[pos] == 'R' && (pos + 1 >= m_b.size() || !isRegular(m_b[pos + 1]))) { pos++; return V::refTo(v.i, (uint32_t)atol(k.c_str())); } }
            }
            pos = save;
        }
        return v;
    }
    size_t p = pos; std::string k = keyword();
    if (k == "true") return V::boolean(true);
    if (k == "false") return V::boolean(false);
    if (k == "null") return V::null();
    throw SyntaxError{ "unexpected token '" + (k.empty() ? std::string(1, c) : k.substr(0, 30)) + "'", p };
}

// ---- strict file reader ---------------------------------------------------------------------------
const V& resolve(const Doc& d, const V& v) {
    static const V nul; const V* p = &v;
    for (int n = 0; p->k == K::Ref; n++) { auto it = d.objs.find(p->i); if (n > 40 || it == d.objs.end() || it->second.gen != p->gen) return nul; p = &it->second.v; }
    return *p;
}
#define NC(cond, tag, ...) do { if (!(cond)) { std::ostringstream ss_; ss_ << __VA_ARGS__; pbt::fail("nonconforming-" tag, ss_.str()); } } while (0)

static Obj readIndirect(std::string_view f, size_t off, int64_t num, int64_t gen, const std::function<int64_t(const V&)>& lengthOf) {
    NC(off < f.size(), "offset", "object " << num << " at offset " << off << " beyond the file (" << f.size() << ")");
    Lexer lx(f, off); Obj o;
    NC(isdigit((unsigned char)f[off]), "offset", "object " << num << ": byte offset " << off << " does not point at an object: '" << pbt::show(f.substr(off, 30)) << "'");
    try {
        int64_t n = lx.integer(), ge = lx.integer();
        NC(lx.accept("obj"), "offset", "object " << num << ": no obj keyword at " << off << ": '" << pbt::show(f.substr(off, 30)) << "'");
        NC(n == num && ge == gen, "objid", "xref says " << num << " " << gen << " but at " << off << " is " << n << " " << ge);
        if (lx.accept("endobj")) { o.v = V::null(); }
        else {
            o.v = lx.value();
            if (lx.accept("stream")) {
                NC(o.v.k == K::Dict, "stream", "stream without dictionary");
                if (lx.pos < f.size() && f[lx.pos] == '\r') { lx.pos++; NC(lx.pos < f.size() && f[lx.pos] == '\n', "stream-eol", "stream keyword followed by lone CR"); lx.pos++; }
                else { NC(lx.pos < f.size() && f[lx.pos] == '\n', "stream-eol", "stream keyword not followed by end of line"); lx.pos++; }
                auto L = o.v.get("Length"); NC(L, "stream-length", "object " << num << ": no /Length");
                int64_t len = lengthOf(*L);
                NC(len >= 0 && lx.pos + (size_t)len <= f.size(), "stream-length", "object " << num << ": bad /Length " << len);
                o.hasStream = true; o.raw = std::string(f.substr(lx.pos, (size_t)len)); lx.pos += (size_t)len;
                size_t p = lx.pos;
                if (p < f.size() && f[p] == '\r') p++;
                if (p < f.size() && f[p] == '\n') p++;
                NC(f.substr(p, 9) == "endstream", "stream-length", "object " << num << ": /Length " << len << " does not lead to endstream: '" << pbt::show(f.substr(lx.pos, 24)) << "'");
                lx.pos = p + 9;
            }
            NC(lx.accept("endobj"), "endobj", "object " << num << ": no endobj: '" << pbt::show(f.substr(lx.pos, 30)) << "'");
        }
    } catch (SyntaxError& e) { NC(false, "syntax", "object " << num << " at " << off << ": " << e.msg << " at " << e.pos << ": '" << pbt::show(f.substr(e.pos > 20 ? e.pos - 20 : 0, 60)) << "'"); }
    o.gen = (uint32_t)gen; o.offset = off; return o;
}
static int64_t beInt(std::string_view s) { int64_t r = 0; for (unsigned char c : s) r = r << 8 | c; return r; }

static void readXRefStreamSection(std::string_view f, size_t off, Section& s) {
    Lexer lx(f, off); int64_t n = -1, ge = -1;
    try { n = lx.integer(); ge = lx.integer(); } catch (SyntaxError& e) { NC(false, "startxref", "no xref section at " << off << ": '" << pbt::show(f.substr(off, 30)) << "'"); }
    Obj o = readIndirect(f, off, n, ge, [&](const V& l) { NC(l.k == K::Int, "xrefstm-length", "xref stream /Length must be direct"); return l.i; });
    NC(o.hasStream, "xrefstm", "xref stream object has no stream");
    auto t = o.v.get("Type"); NC(t && t->k == K::Name && t->s == "XRef", "xrefstm", "xref stream /Type is not XRef");
    auto sz = o.v.get("Size"); NC(sz && sz->k == K::Int, "xrefstm", "xref stream /Size");
    auto w = o.v.get("W"); NC(w && w->k == K::Arr && w->a.size() == 3, "xrefstm", "xref stream /W");
    int64_t W[3]; for (int i = 0; i < 3; i++) { NC(w->a[i].k == K::Int && w->a[i].i >= 0 && w->a[i].i <= 8, "xrefstm", "xref stream /W"); W[i] = w->a[i].i; }
    std::vector<std::pair<int64_t, int64_t>> idx;
    if (auto I = o.v.get("Index")) { NC(I->k == K::Arr && I->a.size() % 2 == 0, "xrefstm", "xref stream /Index"); for (size_t i = 0; i < I->a.size(); i += 2) idx.push_back({ I->a[i].i, I->a[i + 1].i }); }
    else idx.push_back({ 0, sz->i });
    std::string data;
    try { data = decodeStream(o.v, o.raw); } catch (SyntaxError& e) { NC(false, "xrefstm", "xref stream undecodable: " << e.msg); }
    size_t p = 0, rec = (size_t)(W[0] + W[1] + W[2]);
    for (auto& x : idx) for (int64_t k = 0; k < x.second; k++) {
        NC(p + rec <= data.size(), "xrefstm", "xref stream too short");
        int64_t ty = W[0] ? beInt(std::string_view(data).substr(p, W[0])) : 1, a = beInt(std::string_view(data).substr(p + W[0], W[1])), b = beInt(std::string_view(data).substr(p + W[0] + W[1], W[2])); p += rec;
        NC(ty <= 2, "xrefstm", "xref stream entry type " << ty);
        NC(!s.entries.count(x.first + k), "duplicate-entry", "object " << x.first + k << " twice in one xref section");
        NC(x.first + k < sz->i, "size", "xref entry " << x.first + k << " not below /Size " << sz->i);
        s.entries[x.first + k] = { (int)ty, a, b };
    }
    NC(p == data.size(), "xrefstm", "xref stream has " << data.size() - p << " bytes too many");
    s.isStream = true; s.streamObj = n; s.trailer = o.v; s.offset = off;
    auto it = s.entries.find(n); NC(it != s.entries.end() && it->second.type == 1 && it->second.a == (int64_t)off, "xrefstm-self", "xref stream object " << n << " has no proper entry for itself");
}
static void readTable(std::string_view f, size_t off, Section& s) {
    size_t p = off + 4;
    auto eolAt = [&](size_t& q) { if (q < f.size() && f[q] == '\r') { q++; if (q < f.size() && f[q] == '\n') q++; return true; } if (q < f.size() && f[q] == '\n') { q++; return true; } return false; };
    while (p < f.size() && f[p] == ' ') p++;
    NC(eolAt(p), "xref-table", "no end of line after xref");
    for (;;) {
        if (f.substr(p, 7) == "trailer") break;
        size_t q = p; std::string a, b;
        while (q < f.size() && isdigit((unsigned char)f[q])) a += f[q++];
        NC(!a.empty() && q < f.size() && f[q] == ' ', "xref-table", "bad subsection header: '" << pbt::show(f.substr(p, 40)) << "'"); q++;
        while (q < f.size() && isdigit((unsigned char)f[q])) b += f[q++];
        NC(!b.empty(), "xref-table", "bad subsection header: '" << pbt::show(f.substr(p, 40)) << "'");
        while (q < f.size() && f[q] == ' ') q++;
        NC(eolAt(q), "xref-table", "bad subsection header: '" << pbt::show(f.substr(p, 40)) << "'");
        int64_t first = atoll(a.c_str()), cnt = atoll(b.c_str()); p = q;
        for (int64_t i = 0; i < cnt; i++) {
            std::string e(f.substr(p, 20)); bool ok = e.size() == 20;
            for (int k = 0; ok && k < 10; k++) ok = isdigit((unsigned char)e[k]);
            ok = ok && e[10] == ' '; for (int k = 11; ok && k < 16; k++) ok = isdigit((unsigned char)e[k]);
            ok = ok && e[16] == ' ' && (e[17] == 'n' || e[17] == 'f');
            std::string el = ok ? e.substr(18) : ""; ok = ok && (el == " \r" || el == " \n" || el == "\r\n");
            NC(ok, "xref-entry", "malformed 20-byte entry for object " << first + i << ": '" << pbt::show(e) << "'");
            NC(!s.entries.count(first + i), "duplicate-entry", "object " << first + i << " twice in one xref section");
            s.entries[first + i] = { e[17] == 'n' ? 1 : 0, atoll(e.substr(0, 10).c_str()), atoll(e.substr(11, 5).c_str()) }; p += 20;
        }
    }
    Lexer lx(f, p + 7);
    try { s.trailer = lx.value(); } catch (SyntaxError& e) { NC(false, "trailer", "bad trailer: " << e.msg); }
    NC(s.trailer.k == K::Dict, "trailer", "trailer is not a dictionary");
    s.offset = off;
    auto sz = s.trailer.get("Size"); NC(sz && sz->k == K::Int, "size", "trailer without /Size");
    for (auto& e : s.entries) NC(e.first < sz->i, "size", "xref entry " << e.first << " not below /Size " << sz->i);
}

ReadResult readStrict(std::string_view f, const std::function<void(Doc&)>& decrypt) {
    ReadResult R;
    NC(f.substr(0, 5) == "%PDF-" && f.size() > 9 && isdigit((unsigned char)f[5]) && f[6] == '.' && isdigit((unsigned char)f[7]) && (f[8] == '\n' || f[8] == '\r'), "header", "bad header '" << pbt::show(f.substr(0, 12)) << "'");
    R.doc.version = std::string(f.substr(5, 3));
    size_t e = f.size(); while (e > 0 && (f[e - 1] == '\n' || f[e - 1] == '\r')) e--;
    NC(e >= 5 && f.substr(e - 5, 5) == "%%EOF", "eof", "file does not end with %%EOF");
    size_t sx = f.rfind("startxref"); NC(sx != std::string::npos, "startxref", "no startxref");
    size_t off = 0;
    { Lexer lx(f, sx + 9); try { off = (size_t)lx.integer(); } catch (SyntaxError&) { NC(false, "startxref", "no number after startxref"); }
      while (lx.pos < f.size() && isWs(f[lx.pos])) lx.pos++; NC(lx.pos == e - 5, "startxref", "garbage between startxref and %%EOF"); }
    std::set<size_t> seen;
    for (;;) {
        NC(off < f.size(), "startxref", "xref offset " << off << " beyond file");
        NC(seen.insert(off).second, "prev-loop", "/Prev chain loops");
        Section s; Section hyb; bool hasHyb = false;
        if (f.substr(off, 4) == "xref") {
            readTable(f, off, s);
            if (auto x = s.trailer.get("XRefStm")) { NC(x->k == K::Int, "hybrid", "/XRefStm"); readXRefStreamSection(f, (size_t)x->i, hyb); hasHyb = true; }
        } else readXRefStreamSection(f, off, s);
        auto prev = s.trailer.get("Prev");
        // hidden objects of a hybrid file are listed as free in the table
        if (hasHyb) { for (auto it = s.entries.begin(); it != s.entries.end();) { if (it->first && it->second.type == 0 && hyb.entries.count(it->first)) it = s.entries.erase(it); else ++it; } }
        R.sections.push_back(s); if (hasHyb) R.sections.push_back(hyb);
        if (!prev) break;
        NC(prev->k == K::Int, "prev", "/Prev is not a direct integer");
        off = (size_t)prev->i;
    }
    // merge, newest first
    std::map<int64_t, std::pair<Section::E, int>> all; int rev = (int)R.sections.size();
    for (auto& s : R.sections) { for (auto& x : s.entries) all.insert({ x.first, { x.second, rev } }); rev--; }
    R.doc.trailer = R.sections[0].trailer;
    { auto z = all.find(0); NC(z != all.end() && z->second.first.type == 0, "free-head", "object 0 is not free");
      NC(z->second.first.b == 65535, "free-head", "object 0 does not have generation 65535"); }
    // free list: a linked list through free objects that ends at 0
    bool anyHybrid = false; for (auto& x : R.sections) anyHybrid |= x.trailer.m.count("XRefStm") != 0;
    if (!anyHybrid) { std::set<int64_t> fs; int64_t k = 0; for (;;) { auto it = all.find(k); NC(it != all.end() && it->second.first.type == 0, "free-list", "free list passes through object " << k << " which is not free"); NC(fs.insert(k).second, "free-list", "free list loops at " << k); k = it->second.first.a; if (k == 0) break; } }
    // lengths may be indirect: resolve through a plain read
    std::function<int64_t(const V&)> lenOf = [&](const V& l) -> int64_t {
        if (l.k == K::Int) return l.i;
        NC(l.k == K::Ref, "stream-length", "/Length has type " << kn(l.k));
        auto it = all.find(l.i); NC(it != all.end() && it->second.first.type != 0, "stream-length", "indirect /Length " << l.i << " is not an object");
        if (it->second.first.type == 2) { auto c = all.find(it->second.first.a); NC(c != all.end() && c->second.first.type == 1, "stream-length", "container of the length"); Obj o = readIndirect(f, (size_t)c->second.first.a, c->first, 0, [](const V& x) -> int64_t { NC(x.k == K::Int, "stream-length", "length of an object stream is indirect"); return x.i; });
            auto N = o.v.get("N"), F = o.v.get("First"); NC(o.hasStream && N && F, "objstm", "container of the length"); std::string data = decodeStream(o.v, o.raw); Lexer h(data); int64_t off = -1; for (int64_t i = 0; i < N->i; i++) { int64_t a = h.integer(), b = h.integer(); if (i == it->second.first.b && a == l.i) off = b; } NC(off >= 0, "objstm", "length object is not in its container"); Lexer v(data, (size_t)(F->i + off)); V x = v.value(); NC(x.k == K::Int, "stream-length", "indirect /Length is not an integer"); return x.i; }
        Obj o = readIndirect(f, (size_t)it->second.first.a, l.i, l.gen, [](const V&) -> int64_t { NC(false, "stream-length", "length object is a stream"); return 0; });
        NC(o.v.k == K::Int, "stream-length", "indirect /Length is not an integer"); return o.v.i;
    };
    for (auto& x : all) { if (x.second.first.type != 1) continue; Obj o = readIndirect(f, (size_t)x.second.first.a, x.first, x.second.first.b, lenOf); o.revision = x.second.second; R.doc.objs[x.first] = o; }
    if (decrypt) decrypt(R.doc);
    std::map<int64_t, std::vector<std::pair<int64_t, V>>> cache;
    for (auto& x : all) {
        if (x.second.first.type != 2) continue;
        int64_t c = x.second.first.a, idx = x.second.first.b;
        auto it = R.doc.objs.find(c); NC(it != R.doc.objs.end() && it->second.hasStream, "objstm", "object " << x.first << ": container " << c << " is not a stream");
        if (!cache.count(c)) {
            Obj& o = it->second; auto t = o.v.get("Type"); NC(t && t->s == "ObjStm", "objstm", "container " << c << " /Type");
            auto N = o.v.get("N"), F = o.v.get("First"); NC(N && F && N->k == K::Int && F->k == K::Int, "objstm", "container " << c << " /N /First");
            std::string data = decodeStream(o.v, o.raw); Lexer h(data); std::vector<std::pair<int64_t, int64_t>> tab;
            for (int64_t i = 0; i < N->i; i++) { int64_t a = h.integer(), b = h.integer(); tab.push_back({ a, b }); }
            auto& out = cache[c]; for (auto& y : tab) { Lexer l(data, (size_t)(F->i + y.second)); out.push_back({ y.first, l.value() }); }
        }
        auto& v = cache[c]; NC(idx < (int64_t)v.size() && v[idx].first == x.first, "objstm", "object " << x.first << " is not at index " << idx << " of container " << c);
        Obj o; o.v = v[idx].second; o.compressed = true; o.container = (int)c; o.index = (int)idx; o.revision = x.second.second; R.doc.objs[x.first] = o;
    }
    auto root = R.doc.trailer.get("Root"); NC(root && root->k == K::Ref, "root", "trailer /Root is not a reference");
    NC(resolve(R.doc, *root).k == K::Dict, "root", "/Root does not resolve to a dictionary");
    return R;
}
#undef NC

std::string decodeStream(const V& dict, std::string_view raw, const Doc* doc) {
    auto res = [&](const V* v) -> V { if (!v) return V(); if (v->k == K::Ref) { if (!doc) throw SyntaxError{ "indirect filter", 0 }; return resolve(*doc, *v); } return *v; };
    V f = res(dict.get("Filter")), p = res(dict.get("DecodeParms"));
    std::vector<V> fs, ps;
    if (f.k == K::Name) fs = { f }; else if (f.k == K::Arr) for (auto& x : f.a) fs.push_back(res(&x));
    if (p.k == K::Dict) ps = { p }; else if (p.k == K::Arr) for (auto& x : p.a) ps.push_back(res(&x));
    std::string d(raw);
    for (size_t i = 0; i < fs.size(); i++) {
        const std::string& n = fs[i].s; V pp = i < ps.size() ? ps[i] : V();
        auto P = [&](const char* k, int64_t def) { auto v = pp.get(k); if (!v) return def; V r = res(v); return r.k == K::Int ? r.i : def; };
        if (n == "FlateDecode" || n == "Fl") d = inflateAll(d);
        else if (n == "LZWDecode" || n == "LZW") d = lzwDecode(d, (int)P("EarlyChange", 1));
        else if (n == "ASCIIHexDecode" || n == "AHx") { d = hexDecode(d); continue; }
        else if (n == "ASCII85Decode" || n == "A85") { d = a85Decode(d); continue; }
        else if (n == "RunLengthDecode" || n == "RL") { d = rlDecode(d); continue; }
        else if (n == "Crypt") continue;
        else throw SyntaxError{ "filter " + n, 0 };
        d = predictorDecode(d, (int)P("Predictor", 1), (int)P("Colors", 1), (int)P("BitsPerComponent", 8), (int)P("Columns", 1));
    }
    return d;
}

// ---- file writer ----------------------------------------------------------------------------------------
void FileWriter::header(const std::string& version) {
    out += "%PDF-" + version + eol;
    if (g.coin()) out += "%\xE2\xE3\xCF\xD3" + eol;
}
void FileWriter::ws(bool must) {
    if (!noise) { if (must) out += eol; return; }
    unsigned n = (must ? 1 : 0) + (g.chance(1, 3) ? g.size(3) : 0);
    for (unsigned i = 0; i < n; i++) switch (g.weighted({ 6, 3, 1, 1 })) { case 0: out += eol; break; case 1: out += ' '; break; case 2: out += '\t'; break; default: out += "% c" + std::to_string(g.draw(9)) + " obj" + eol; }
}
std::string FileWriter::body(int64_t num, const Obj& oo) {
    Obj o = oo; if (crypt) crypt(num, o);
    std::string r = std::to_string(num) + " " + std::to_string(o.gen) + " obj" + (noise ? g.pick<const char*>({ "\n", " ", "\r\n", "\r" }) : "\n");
    r += spell(o.v, noise ? &g : nullptr);
    if (o.hasStream) {
        r += (noise ? g.pick<const char*>({ "\n", " ", "" }) : "\n"); r += "stream"; r += (noise && g.coin() ? "\r\n" : "\n"); r += o.raw; r += (noise ? g.pick<const char*>({ "\n", "\r\n", "\r" }) : "\n"); r += "endstream";
    }
    r += noise ? g.pick<const char*>({ "\n", " ", "\r\n" }) : "\n";
    r += "endobj"; r += eol; return r;
}
void FileWriter::revision(const std::map<int64_t, Obj>& objs, const std::map<int64_t, uint32_t>& freed, V trailer, const Layout& l, bool first) {
    std::map<int64_t, Section::E> ent, hidden;
    if (!out.empty() && out.back() != '\n' && out.back() != '\r') out += eol;
    std::vector<int64_t> order; for (auto& x : objs) order.push_back(x.first);
    if (noise && order.size() > 1 && g.chance(1, 2)) for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[g.draw(i)]);
    std::vector<int64_t> inStm;
    int64_t encNum = -1; if (auto e = trailer.get("Encrypt")) if (e->k == K::Ref) encNum = e->i;
    for (auto n : order) {
        const Obj& o = objs.at(n);
        bool canCompress = l.objStreams && l.xref != 0 && !o.hasStream && o.gen == 0 && n != encNum && o.v.k != K::Ref;
        if (canCompress && g.chance(3, 4)) { inStm.push_back(n); continue; }
        ws(false); ent[n] = { 1, (int64_t)out.size(), (int64_t)o.gen }; out += body(n, o);
    }
    while (!inStm.empty()) {
        size_t k = g.chance(1, 2) ? inStm.size() : 1 + g.draw(inStm.size() - 1);
        int64_t sn = nextFree++; helper.insert(sn);
        std::string head, data;
        for (size_t i = 0; i < k; i++) {
            head += std::to_string(inStm[i]) + " " + std::to_string(data.size()) + (noise && g.chance(1, 6) ? "\n" : " ");
            data += spell(objs.at(inStm[i]).v, noise ? &g : nullptr); data += noise ? g.pick<const char*>({ " ", "\n" }) : " ";
            (l.xref == 2 ? hidden : ent)[inStm[i]] = { 2, sn, (int64_t)i };
        }
        inStm.erase(inStm.begin(), inStm.begin() + k);
        Obj so; so.hasStream = true; so.v = V::dict({ { "Type", V::name("ObjStm") }, { "N", V::integer((int64_t)k) }, { "First", V::integer((int64_t)head.size()) } });
        so.raw = head + data;
        if (g.coin()) { so.raw = deflateAll(so.raw); so.v.m["Filter"] = V::name("FlateDecode"); }
        so.v.m["Length"] = V::integer((int64_t)so.raw.size());
        ws(false); (l.xref == 2 && g.coin() ? hidden : ent)[sn] = { 1, (int64_t)out.size(), 0 }; out += body(sn, so);
    }
    auto xrefStream = [&](std::map<int64_t, Section::E>& es, V tr) {
        int64_t xn = nextFree++; helper.insert(xn);
        ws(false); size_t off = out.size(); es[xn] = { 1, (int64_t)off, 0 };
        int64_t w1 = 1, w2 = 1, mx = 0; for (auto& e : es) { mx = std::max(mx, e.second.a); w2 = e.second.b > 255 ? 2 : w2; }
        while (w1 < 8 && (mx >> (8 * w1))) w1++; if (g.chance(1, 4)) w1 = std::min<int64_t>(8, w1 + 1 + (int64_t)g.draw(2));
        if (g.chance(1, 4) && w2 < 3) w2++;
        bool allUsed = true, b0 = true; for (auto& e : es) { allUsed &= e.second.type == 1; b0 &= e.second.b == 0; }
        int64_t w0 = allUsed && g.coin() ? 0 : (g.chance(1, 6) ? 2 : 1); if (b0 && g.chance(1, 3)) w2 = 0;
        std::string data; V idx = V::arr(); int64_t last = -2;
        auto put = [&](int64_t v, int64_t w) { for (int64_t i = w - 1; i >= 0; i--) data += (char)(v >> (8 * i)); };
        for (auto& e : es) {
            if (e.first == last + 1) idx.a.back().i++; else { idx.a.push_back(V::integer(e.first)); idx.a.push_back(V::integer(1)); }
            last = e.first; put(e.second.type, w0); put(e.second.a, w1); put(e.second.b, w2);
        }
        Obj xo; xo.hasStream = true; xo.v = tr; xo.v.m["Type"] = V::name("XRef"); xo.v.m["W"] = V::arr({ V::integer(w0), V::integer(w1), V::integer(w2) });
        int64_t size = tr.m["Size"].i;
        if (!(idx.a.size() == 2 && idx.a[0].i == 0 && idx.a[1].i == size && g.coin())) xo.v.m["Index"] = idx;
        switch (g.draw(2)) {
            case 0: break;
            case 1: data = deflateAll(data); xo.v.m["Filter"] = V::name("FlateDecode"); break;
            default: { int rec = (int)(w0 + w1 + w2); int pr = g.pick<int>({ 12, 15, 11, 10, 13, 14 }); data = deflateAll(predictorEncode(data, pr, 1, 8, rec, &g)); xo.v.m["Filter"] = V::name("FlateDecode");
                xo.v.m["DecodeParms"] = V::dict({ { "Predictor", V::integer(pr) }, { "Columns", V::integer(rec) } }); }
        }
        xo.raw = data; xo.v.m["Length"] = V::integer((int64_t)data.size());
        out += body(xn, xo); return off;
    };
    // free entries
    auto addFree = [&] {
        auto before = freeAll; for (auto& x : freed) freeAll[x.first] = x.second; for (auto& x : objs) freeAll.erase(x.first);
        std::map<int64_t, uint32_t> fr = freeAll;
        for (auto& h : hidden) if (h.first) fr[h.first] = g.coin() ? 0 : 65535;
        std::vector<int64_t> fl; for (auto& x : fr) fl.push_back(x.first);
        bool head = first || freeAll != before || (l.xref == 2 && !hidden.empty()) || g.chance(1, 4);
        if (!head) return;
        ent[0] = { 0, fl.empty() ? 0 : fl[0], 65535 };
        for (size_t i = 0; i < fl.size(); i++) ent[fl[i]] = { 0, i + 1 < fl.size() ? fl[i + 1] : 0, (int64_t)fr.at(fl[i]) };
    };
    int64_t sizeAll = std::max<int64_t>(trailer.m.count("Size") ? trailer.m["Size"].i : 0, nextFree);
    if (prev >= 0) trailer.m["Prev"] = V::integer(prev);
    size_t off;
    if (l.xref == 1) { addFree(); trailer.m["Size"] = V::integer(sizeAll + 1); off = xrefStream(ent, trailer); }
    else {
        if (l.xref == 2) {
            // hybrid: hidden entries through /XRefStm, free in the table for old readers
            V tr = V::dict({ { "Size", V::integer(sizeAll + 1) } });
            size_t xo = xrefStream(hidden, tr); trailer.m["XRefStm"] = V::integer((int64_t)xo);
            sizeAll = std::max(sizeAll, nextFree);
        }
        addFree();
        trailer.m["Size"] = V::integer(sizeAll);
        ws(false); off = out.size(); out += "xref" + (g.chance(1, 6) ? std::string(" ") : std::string()) + eol;
        std::vector<std::pair<int64_t, std::vector<Section::E>>> subs;
        for (auto& e : ent) {
            if (!subs.empty() && subs.back().first + (int64_t)subs.back().second.size() == e.first && !(noise && e.first > 1 && g.chance(1, 10))) subs.back().second.push_back(e.second);
            else subs.push_back({ e.first, { e.second } });
        }
        const char* ee = noise ? g.pick<const char*>({ " \n", "\r\n", " \r" }) : " \n";
        for (auto& s : subs) {
            out += std::to_string(s.first) + " " + std::to_string(s.second.size()) + eol;
            for (auto& e : s.second) { char b[32]; snprintf(b, sizeof b, "%010lld %05lld %c%s", (long long)e.a, (long long)e.b, e.type ? 'n' : 'f', ee); out += b; }
        }
        out += "trailer" + std::string(noise ? g.pick<const char*>({ "\n", " ", "\r\n" }) : "\n") + spell(trailer, noise ? &g : nullptr) + eol;
    }
    out += "startxref" + eol + std::to_string(off) + eol + "%%EOF" + (noise && g.chance(1, 6) ? "" : eol);
    prev = (int64_t)off;
}
} // namespace ref
