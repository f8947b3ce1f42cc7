// C22: what is painted is what the content streams say; content streams are read as they are; colours keep their values.
#include "refdoc.h"
#include "refgraph.h"
#include "refrich.h"
#include <cmath>
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "painter: at least two marks were painted in a state that had been changed; reader: at least 4 operators and one of a form, an inline image, an unknown keyword, a surplus or missing operand, or several streams; colours: always";
    pbt::g_assumptions = "operations are issued in an order the content stream grammar allows: no state change between the construction and the painting of a path, Save and Restore balanced and outside of text objects\nthe current matrix is set at most once between Save and Restore\nafter a session without Save/Restore of its own content the next one saves and restores the prior content\ndash patterns of the predefined styles other than Solid are only required to be valid\ntext is ASCII, the vertical position of multi line text is not compared\none separation name has one alternate colour\ndata of inline images do not hold EI followed by white space";
} } init;

// ---- interpreter of content programs ----
struct Op { std::string name; std::vector<V> a; };
typedef std::vector<Op> Prog;
struct Col { std::string kind = "G"; std::vector<double> n = { 0 }; };
struct Mx { double m[6] = { 1, 0, 0, 1, 0, 0 }; };
static Mx mul(const Mx& x, const Mx& y) { Mx r; r.m[0] = x.m[0] * y.m[0] + x.m[1] * y.m[2]; r.m[1] = x.m[0] * y.m[1] + x.m[1] * y.m[3]; r.m[2] = x.m[2] * y.m[0] + x.m[3] * y.m[2]; r.m[3] = x.m[2] * y.m[1] + x.m[3] * y.m[3]; r.m[4] = x.m[4] * y.m[0] + x.m[5] * y.m[2] + y.m[4]; r.m[5] = x.m[4] * y.m[1] + x.m[5] * y.m[3] + y.m[5]; return r; }
struct GS { Mx ctm; double lw = 1, miter = 10, phase = 0, tc = 0, tw = 0, tz = 100, size = 0; int cap = 0, join = 0, tr = 0; int64_t font = 0; std::vector<double> dash; std::string intent = "RelativeColorimetric"; Col fill, stroke; std::map<std::string, std::string> ext; std::vector<size_t> clips; };
struct Ev { std::string kind, key; std::vector<double> n; };
static std::string num(const V& v) { return v.isNum() ? std::string() : "not a number"; }
struct Interp {
    std::string err; std::vector<Ev> out; std::function<V(int64_t)> obj;
    std::vector<GS> st; GS s; bool text = false; int tj = 0; Mx tlm; unsigned mc = 0, mcText = 0; size_t clipCount = 0; std::string seg; std::vector<double> pts; double cx = 0, cy = 0, sx = 0, sy = 0; int clip = 0;
    void pt(double x, double y) { pts.push_back(x * s.ctm.m[0] + y * s.ctm.m[2] + s.ctm.m[4]); pts.push_back(x * s.ctm.m[1] + y * s.ctm.m[3] + s.ctm.m[5]); }
    void state(Ev& e, bool stroke, bool fill) {
        if (stroke) { e.key += " cap" + std::to_string(s.cap) + " join" + std::to_string(s.join) + " S:" + s.stroke.kind + (s.dash.size() && s.dash[0] < 0 ? " dashed" : " dash" + std::to_string(s.dash.size())); e.n.insert(e.n.end(), { s.lw, s.miter, s.phase }); for (double d : s.dash) if (d >= 0) e.n.push_back(d); e.n.insert(e.n.end(), s.stroke.n.begin(), s.stroke.n.end()); for (int i = 0; i < 4; i++) e.n.push_back(s.ctm.m[i]); }
        if (fill) { e.key += " F:" + s.fill.kind; e.n.insert(e.n.end(), s.fill.n.begin(), s.fill.n.end()); }
        e.key += " " + s.intent; for (auto& x : s.ext) e.key += " " + x.first + "=" + x.second; e.key += " clips"; for (auto c : s.clips) e.key += "," + std::to_string(c);
    }
    Col colour(const std::vector<V>& a) { Col c; c.n.clear(); c.kind = a[0].s; for (size_t i = 1; i < a.size(); i++) c.n.push_back(a[i].num()); return c; }
    void run(const Prog& p) { for (auto& o : p) { if (err.size()) return; step(o); } if (err.empty() && (st.size() || text || mc || seg.size())) err = "unbalanced at the end"; }
    void step(const Op& o) {
        auto& a = o.a; const std::string& n = o.name; auto N = [&](size_t i) { return a[i].num(); };
        static const std::map<std::string, int> counts{ {"q",0},{"Q",0},{"cm",6},{"w",1},{"J",1},{"j",1},{"M",1},{"d",2},{"ri",1},{"gs",1},{"m",2},{"l",2},{"c",6},{"v",4},{"y",4},{"h",0},{"re",4},{"S",0},{"s",0},{"f",0},{"F",0},{"f*",0},{"B",0},{"B*",0},{"b",0},{"b*",0},{"n",0},{"W",0},{"W*",0},{"BT",0},{"ET",0},{"Tc",1},{"Tw",1},{"Tz",1},{"Tf",2},{"Tr",1},{"Td",2},{"Tj",1},{"G",1},{"g",1},{"RG",3},{"rg",3},{"K",4},{"k",4},{"Do",1},{"BMC",1},{"EMC",0},{"!fill",-1},{"!stroke",-1} };
        auto ct = counts.find(n); if (ct == counts.end()) { err = "unexpected operator " + n; return; }
        if (ct->second >= 0 && (int)a.size() != ct->second) { err = "operator " + n + " has " + std::to_string(a.size()) + " operands"; return; }
        static const std::set<std::string> numeric{ "cm", "w", "J", "j", "M", "m", "l", "c", "v", "y", "re", "Tc", "Tw", "Tz", "Tr", "Td", "G", "g", "RG", "rg", "K", "k" };
        if (numeric.count(n)) for (auto& x : a) if (!x.isNum()) { err = "operand of " + n + " is " + ref::show(x); return; }
        static const std::set<std::string> path{ "m", "l", "c", "v", "y", "h", "re" }, paint{ "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n" };
        if (seg.size() && !path.count(n) && !paint.count(n) && n != "W" && n != "W*") { err = "operator " + n + " in a path"; return; }
        if (clip && !paint.count(n)) { err = "operator " + n + " after clipping"; return; }
        if (text && (path.count(n) || paint.count(n) || n == "q" || n == "Q" || n == "cm" || n == "BT" || n == "Do" || n == "W" || n == "W*")) { err = "operator " + n + " in a text object"; return; }
        if (!text && (n == "Td" || n == "Tj" || n == "ET")) { err = "operator " + n + " outside of a text object"; return; }
        if (n == "q") st.push_back(s); else if (n == "Q") { if (st.empty()) { err = "Q without q"; return; } s = st.back(); st.pop_back(); }
        else if (n == "cm") { Mx m; for (int i = 0; i < 6; i++) m.m[i] = N(i); s.ctm = mul(m, s.ctm); }
        else if (n == "w") s.lw = N(0); else if (n == "M") s.miter = N(0);
        else if (n == "J" || n == "j" || n == "Tr") { if (a[0].k != K::Int) { err = "operand of " + n; return; } (n == "J" ? s.cap : n == "j" ? s.join : s.tr) = (int)a[0].i; }
        else if (n == "d") { if (a[0].k != K::Arr || !a[1].isNum()) { err = "operands of d"; return; } s.dash.clear(); double sum = 0; for (auto& x : a[0].a) { if (!x.isNum()) { err = "operands of d"; return; } s.dash.push_back(x.num()); sum += x.num(); } s.phase = N(1); if (s.dash.size() && s.dash[0] != -1 && sum <= 0) err = "dash array without length"; for (double d : s.dash) if (d < 0 && d != -1) err = "negative dash"; }
        else if (n == "ri") { if (a[0].k != K::Name) { err = "operand of ri"; return; } s.intent = a[0].s; }
        else if (n == "gs") { if (a[0].k != K::Ref) { err = "unknown graphics state"; return; } V d = obj(a[0].i); if (d.k != K::Dict) { err = "graphics state is not a dictionary"; return; } for (auto& x : d.m) if (x.first != "Type") s.ext[x.first] = ref::show(x.second); }
        else if (n == "!fill") s.fill = colour(a); else if (n == "!stroke") s.stroke = colour(a);
        else if (n == "g" || n == "rg" || n == "k" || n == "G" || n == "RG" || n == "K") { Col c; c.kind = n == "g" || n == "G" ? "G" : n == "rg" || n == "RG" ? "RGB" : "CMYK"; c.n.clear(); for (auto& x : a) c.n.push_back(x.num()); (islower(n[0]) ? s.fill : s.stroke) = c; }
        else if (n == "m") { seg += 'm'; pt(N(0), N(1)); cx = sx = N(0); cy = sy = N(1); }
        else if (n == "re") { seg += 'r'; pt(N(0), N(1)); pt(N(0) + N(2), N(1)); pt(N(0) + N(2), N(1) + N(3)); pt(N(0), N(1) + N(3)); cx = sx = N(0); cy = sy = N(1); }
        else if (path.count(n)) {
            if (seg.empty()) { err = "operator " + n + " without current point"; return; }
            if (n == "l") { seg += 'l'; pt(N(0), N(1)); cx = N(0); cy = N(1); } else if (n == "h") { seg += 'h'; cx = sx; cy = sy; }
            else { seg += 'c'; if (n == "c") { pt(N(0), N(1)); pt(N(2), N(3)); pt(N(4), N(5)); cx = N(4); cy = N(5); } else { if (n == "v") { pt(cx, cy); pt(N(0), N(1)); } else { pt(N(0), N(1)); pt(N(2), N(3)); } pt(N(2), N(3)); cx = N(2); cy = N(3); } } }
        else if (n == "W" || n == "W*") { if (seg.empty()) { err = "clip without path"; return; } clip = n == "W" ? 1 : 2; }
        else if (paint.count(n)) {
            if (seg.empty()) { err = "operator " + n + " without path"; return; }
            std::string k = n; if (k == "s" || k == "b" || k == "b*") { seg += 'h'; k[0] = (char)toupper(k[0]); } if (k == "F") k = "f";
            if (k != "n") { Ev e; e.kind = k; e.key = seg; e.n = pts; state(e, k[0] == 'S' || k[0] == 'B', k[0] == 'f' || k[0] == 'B'); out.push_back(e); }
            if (clip) { Ev e; e.kind = clip == 1 ? "W" : "W*"; e.key = seg; e.n = pts; out.push_back(e); s.clips.push_back(++clipCount); clip = 0; }
            seg.clear(); pts.clear(); }
        else if (n == "BT") { text = true; tj = 0; tlm = Mx(); mcText = mc; } else if (n == "ET") { text = false; if (mc != mcText) err = "marked content crosses a text object"; }
        else if (n == "Tc") s.tc = N(0); else if (n == "Tw") s.tw = N(0); else if (n == "Tz") s.tz = N(0);
        else if (n == "Tf") { if (a[0].k != K::Ref || !a[1].isNum()) { err = "unknown font"; return; } s.font = a[0].i; s.size = N(1); }
        else if (n == "Td") { Mx m; m.m[4] = N(0); m.m[5] = N(1); tlm = mul(m, tlm); tj = 0; }
        else if (n == "Tj") { if (a[0].k != K::Str) { err = "operand of Tj"; return; } if (!s.font) { err = "text without a font"; return; } Ev e; e.kind = "text"; e.key = pbt::show(a[0].s) + " font" + std::to_string(s.font) + " mode" + std::to_string(s.tr) + " #" + std::to_string(tj++); Mx m = mul(tlm, s.ctm); e.n.assign(m.m, m.m + 6); e.n.insert(e.n.end(), { s.size, s.tc, s.tw, s.tz }); state(e, s.tr == 1 || s.tr == 2, s.tr == 0 || s.tr == 2); out.push_back(e); }
        else if (n == "Do") { if (a[0].k != K::Ref) { err = "unknown XObject"; return; } Ev e; e.kind = "Do"; e.key = std::to_string(a[0].i); e.n.assign(s.ctm.m, s.ctm.m + 6); state(e, false, false); out.push_back(e); }
        else if (n == "BMC") { if (a[0].k != K::Name) { err = "operand of BMC"; return; } mc++; Ev e; e.kind = "BMC"; e.key = a[0].s; out.push_back(e); }
        else if (n == "EMC") { if (!mc) { err = "EMC without BMC"; return; } mc--; Ev e; e.kind = "EMC"; out.push_back(e); }
    }
};
static bool tokens(const std::string& bytes, Prog& out, std::string& err) {
    Lexer lx(bytes); lx.allowRefs = false; Op cur;
    try { while (!lx.atEnd()) { char c = bytes[lx.pos]; bool value = c == '/' || c == '(' || c == '<' || c == '[' || c == '+' || c == '-' || c == '.' || isdigit((unsigned char)c);
        if (value) { cur.a.push_back(lx.value()); continue; }
        size_t p = lx.pos; std::string k = lx.keyword(); if (k.empty()) { err = "unexpected character at " + std::to_string(p); return false; }
        if (k == "true" || k == "false") { cur.a.push_back(V::boolean(k == "true")); continue; } if (k == "null") { cur.a.push_back(V::null()); continue; }
        cur.name = k; out.push_back(cur); cur = Op(); } }
    catch (SyntaxError& e) { err = e.msg + " at " + std::to_string(e.pos); return false; }
    if (cur.a.size()) { err = "operands without an operator"; return false; }
    return true;
}
// names of resources become references, colours get their values
static double lerp(double a, double b, double t) { return a + (b - a) * t; }
static bool bind(Prog& p, const Doc& d, const V& resources, std::string& err) {
    auto find = [&](const char* type, const std::string& name) -> const V* { auto t = resources.get(type); if (!t) return nullptr; auto& dict = resolve(d, *t); return dict.k == K::Dict ? dict.get(name) : nullptr; };
    Col cs[2]; // current colour spaces
    for (auto& o : p) {
        const char* type = o.name == "gs" ? "ExtGState" : o.name == "Do" ? "XObject" : o.name == "Tf" ? "Font" : nullptr;
        if (type) { if (o.a.empty() || o.a[0].k != K::Name) { err = "operand of " + o.name; return false; } auto v = find(type, o.a[0].s); if (!v || v->k != K::Ref) { err = std::string(type) + " " + o.a[0].s + " is not in the resources"; return false; } o.a[0] = *v; continue; }
        bool low = o.name == "cs" || o.name == "scn";
        if (o.name == "cs" || o.name == "CS") { if (o.a.size() != 1 || o.a[0].k != K::Name) { err = "operand of cs"; return false; } cs[low].kind = o.a[0].s; o.name = "?"; continue; }
        if (o.name == "scn" || o.name == "SCN") {
            Col& c = cs[low]; std::vector<V> r;
            if (c.kind == "Pattern") { if (o.a.size() != 1 || o.a[0].k != K::Name) { err = "operand of scn"; return false; } r = { V::str("Pattern:" + o.a[0].s) }; }
            else {
                auto v = find("ColorSpace", c.kind); if (!v) { err = "color space " + c.kind + " is not in the resources"; return false; } const V& a = resolve(d, *v);
                for (auto& x : o.a) if (!x.isNum()) { err = "operands of scn"; return false; }
                auto lab = [&](const V& l) { if (l.k != K::Arr || l.a.size() != 2 || l.a[0].s != "Lab") return false; auto& dict = resolve(d, l.a[1]); auto wp = dict.get("WhitePoint"), rg = dict.get("Range"); return wp && wp->k == K::Arr && wp->a.size() == 3 && wp->a[1].num() == 1 && rg && ref::show(*rg) == ref::show(V::arr({ V::integer(-128), V::integer(127), V::integer(-128), V::integer(127) })); };
                if (lab(a)) { if (o.a.size() != 3) { err = "operands of scn"; return false; } r = { V::str("Lab"), o.a[0], o.a[1], o.a[2] }; }
                else if (a.k == K::Arr && a.a.size() == 4 && a.a[0].s == "Separation" && a.a[1].k == K::Name && o.a.size() == 1) {
                    const V& alt = resolve(d, a.a[2]); std::string an = alt.k == K::Name ? alt.s : lab(alt) ? "Lab" : "?"; size_t nc = an == "DeviceGray" ? 1 : an == "DeviceRGB" || an == "Lab" ? 3 : an == "DeviceCMYK" ? 4 : 0; if (!nc || (an == "Lab" && alt.k == K::Name)) { err = "alternate color space " + ref::show(alt); return false; }
                    if (a.a[3].k != K::Ref || !d.objs.count(a.a[3].i)) { err = "tint transform"; return false; } auto& fo = d.objs.at(a.a[3].i); const V& f = fo.v; std::string data; try { data = decodeStream(f, fo.raw, &d); } catch (SyntaxError& e) { err = "tint transform: " + e.msg; return false; }
                    auto isArr = [&](const char* key, const V& want) { auto x = f.get(key); return x && diff(resolve(d, *x), want).empty(); }; std::vector<V> range; for (size_t i = 0; i < nc; i++) { bool L = an == "Lab"; range.push_back(V::integer(L && i ? -128 : 0)); range.push_back(V::integer(L ? i ? 127 : 100 : 1)); }
                    auto ft = f.get("FunctionType"), bps = f.get("BitsPerSample"); if (!ft || ft->i != 0 || !bps || bps->i != 8 || !isArr("Size", V::arr({ V::integer(2) })) || !isArr("Domain", V::arr({ V::integer(0), V::integer(1) })) || !isArr("Range", V::arr(range)) || data.size() < 2 * nc) { err = "tint transform " + ref::show(f) + " of " + std::to_string(data.size()) + " bytes"; return false; }
                    std::vector<V> dec = range; if (auto x = f.get("Decode")) dec = resolve(d, *x).a; if (dec.size() != 2 * nc) { err = "Decode of the tint transform"; return false; }
                    r = { V::str("Sep:" + a.a[1].s + ":" + an), o.a[0] }; double t = std::min(1.0, std::max(0.0, o.a[0].num()));
                    for (size_t i = 0; i < nc; i++) { double s0 = (unsigned char)data[i] / 255.0, s1 = (unsigned char)data[nc + i] / 255.0; double v = lerp(dec[2 * i].num(), dec[2 * i + 1].num(), lerp(s0, s1, t)); double lo = range[2 * i].num(), hi = range[2 * i + 1].num(); r.push_back(V::real((v - lo) / (hi - lo) * 0.1)); }
                } else { err = "color space " + ref::show(a) + " with " + std::to_string(o.a.size()) + " operands"; return false; }
            }
            o.name = low ? "!fill" : "!stroke"; o.a = r; continue;
        }
    }
    Prog q; for (auto& o : p) if (o.name != "?") q.push_back(o); p = q; return true;
}

// ---- painting ----
static double R(pbt::Src& g, double scale = 1000) { double v; switch (g.weighted({ 6, 3, 1 })) { case 0: v = (double)g.range(-200, 800); break; case 1: v = (double)g.range(-800000, 800000) / 1000; break; default: v = g.pick({ 0.0, 0.001, -0.0005, 12345.678, 99999.0, 1e-7, 0.5, 1.0 / 3 }); } return v * (scale / 1000); }
static double unit(pbt::Src& g) { return g.weighted({ 2, 1 }) ? (double)g.draw(1000) / 1000 : g.pick({ 0.0, 1.0, 0.5, 0.25 }); }
static V rv(double d) { return V::real(d); }
static std::vector<V> rvs(std::initializer_list<double> l) { std::vector<V> r; for (double d : l) r.push_back(V::real(d)); return r; }
struct Draw {
    pbt::Src& g; PdfMemDocument& doc; std::vector<PdfFont*> fonts; std::vector<std::unique_ptr<PdfExtGState>> ext; std::vector<V> extWant; std::vector<PdfXObject*> xobj; std::map<std::string, int> seps;
    PdfPainter* p = nullptr; Prog* out = nullptr; unsigned marks = 0, changes = 0; bool matrixSet = false;
    struct TS { const PdfFont* font = nullptr; double size = 0, scale = 1, tc = 0, tw = 0; int tr = 0; } ts; bool inText = false;
    Draw(pbt::Src& g, PdfMemDocument& d) : g(g), doc(d) {}
    void op(const char* n, std::vector<V> a = {}) { out->push_back({ n, a }); }
    Op sepOp(const char* o, const std::string& name, double d, int alt) {
        std::vector<double> c; std::string an; double w[4] = { 0.2, 0.6, 1, 0.4 }; switch (alt % 4) { case 0: an = "DeviceGray"; c = { w[alt / 4 % 4] }; break; case 1: an = "DeviceRGB"; c = { w[alt / 4 % 4], w[(alt / 4 + 1) % 4], 0 }; break; case 2: an = "DeviceCMYK"; c = { w[alt / 4 % 4], 0, w[(alt / 4 + 1) % 4], w[(alt / 4 + 2) % 4] }; break; default: an = "Lab"; c = { 100 * w[alt / 4 % 4], -128 + 255 * w[(alt / 4 + 1) % 4], -128 + 255 * w[(alt / 4 + 2) % 4] }; }
        std::vector<V> a{ V::str("Sep:" + textBytes(name) + ":" + an), rv(d) };
        for (size_t i = 0; i < c.size(); i++) { double v = an == "DeviceCMYK" ? c[i] * d : an == "Lab" ? (i ? (128 + c[i] * d) / 255 : (100 - d * (100 - c[i])) / 100) : 1 - d * (1 - c[i]); a.push_back(rv(v * 0.1)); }
        return { o, a };
    }
    PdfColor colour(bool fill) {
        const char* o = fill ? "!fill" : "!stroke"; double a = unit(g), b = unit(g), c = unit(g), d = unit(g);
        switch (g.weighted({ 3, 3, 2, 1, 2 })) {
            case 0: op(fill ? "g" : "G", rvs({ a })); return PdfColor(a);
            case 1: op(fill ? "rg" : "RG", rvs({ a, b, c })); return PdfColor(a, b, c);
            case 2: op(fill ? "k" : "K", rvs({ a, b, c, d })); return PdfColor(a, b, c, d);
            case 3: { double L = 100 * a, A = std::floor(b * 255) - 128, B = std::floor(c * 255) - 128; op(o, { V::str("Lab"), rv(L), rv(A), rv(B) }); return PdfColor::CreateCieLab(L, A, B); }
            default: {
                if (g.chance(1, 5)) { bool all = g.coin(); std::vector<V> r{ V::str(all ? "Sep:All:DeviceCMYK" : "Sep:None:DeviceCMYK"), rv(all ? 1 : 0) }; for (int i = 0; i < 4; i++) r.push_back(rv(all ? 0.1 : 0)); op(o, r); return all ? PdfColor::CreateSeparationAll() : PdfColor::CreateSeparationNone(); }
                std::string name = g.pick({ "Spot", "Pantone 12", "A#1", "x(y)", "\xC3\xA9t\xC3\xA9", "Z/[" }); int alt; auto it = seps.find(name); if (it == seps.end()) alt = seps[name] = (int)g.draw(15); else alt = it->second;
                out->push_back(sepOp(o, name, a, alt)); double w[4] = { 0.2, 0.6, 1, 0.4 }; int k = alt / 4;
                PdfColor ac = alt % 4 == 0 ? PdfColor(w[k % 4]) : alt % 4 == 1 ? PdfColor(w[k % 4], w[(k + 1) % 4], 0) : alt % 4 == 2 ? PdfColor(w[k % 4], 0, w[(k + 1) % 4], w[(k + 2) % 4]) : PdfColor::CreateCieLab(100 * w[k % 4], -128 + 255 * w[(k + 1) % 4], -128 + 255 * w[(k + 2) % 4]);
                return PdfColor::CreateSeparation(name, a, ac); }
        }
    }
    void textOps() { op("Tf", { V::refTo(ts.font->GetObject().GetIndirectReference().ObjectNumber()), rv(ts.size) }); op("Tz", rvs({ ts.scale * 100 })); op("Tc", rvs({ ts.tc })); op("Tw", rvs({ ts.tw })); op("Tr", { V::integer(ts.tr) }); }
    void setText(unsigned what) {
        auto& t = p->GetTextState(); changes++;
        switch (what) {
            case 0: ts.font = g.pick(fonts); ts.size = g.pick({ 12.0, 10.0, 8.5, 0.75, 24.0 }); g.trace("text: font ", ts.font->GetIdentifier().GetString(), " size ", ts.size); t.SetFont(*ts.font, ts.size); break;
            case 1: ts.scale = g.pick({ 1.0, 0.5, 1.25, 2.0 }); g.trace("text: scale ", ts.scale); t.SetFontScale(ts.scale); break;
            case 2: ts.tc = g.pick({ 0.0, 1.0, 0.25, -0.5 }); g.trace("text: char spacing ", ts.tc); t.SetCharSpacing(ts.tc); break;
            case 3: ts.tw = g.pick({ 0.0, 2.0, 0.125, -1.0 }); g.trace("text: word spacing ", ts.tw); t.SetWordSpacing(ts.tw); break;
            default: ts.tr = (int)g.draw(3); g.trace("text: mode ", ts.tr); t.SetRenderingMode((PdfTextRenderingMode)(ts.tr + 1)); }
        if (inText) textOps();
    }
    void state() {
        auto& s = p->GetGraphicsState(); changes++;
        switch (g.weighted({ 3, 2, 2, 2, 1, 2, 3, 3, 2, 2 })) {
            case 0: { double w = g.pick({ 0.0, 1.0, 2.0, 0.5, 3.25 }); g.trace("line width ", w); s.SetLineWidth(w); op("w", rvs({ w })); break; }
            case 1: { double m = g.pick({ 10.0, 1.0, 4.5 }); g.trace("miter ", m); s.SetMiterLevel(m); op("M", rvs({ m })); break; }
            case 2: { int c = (int)g.draw(2); g.trace("cap ", c); s.SetLineCapStyle((PdfLineCapStyle)c); op("J", { V::integer(c) }); break; }
            case 3: { int c = (int)g.draw(2); g.trace("join ", c); s.SetLineJoinStyle((PdfLineJoinStyle)c); op("j", { V::integer(c) }); break; }
            case 4: { std::string i = g.pick({ "RelativeColorimetric", "Perceptual", "Saturation", "AbsoluteColorimetric" }); g.trace("intent ", i); s.SetRenderingIntent(i); op("ri", { V::name(i) }); break; }
            case 5: { if (g.chance(1, 4)) { bool fill = g.coin(); std::string n = g.pick({ "P1", "Tiles" }); g.trace(fill ? "fill" : "stroke", " pattern ", n); op(fill ? "!fill" : "!stroke", { V::str("Pattern:" + n) }); if (fill) p->SetTilingPattern(n); else p->SetStrokingTilingPattern(n); break; }
                if (g.coin()) { g.trace("solid"); p->SetStrokeStyle(PdfStrokeStyle::Solid); op("d", { V::arr(), V::integer(0) }); } else if (g.coin()) { g.trace("dash [3 1.5] 0"); p->SetStrokeStyle(PdfStrokeStyle::Custom, "[3 1.5] 1"); op("d", { V::arr(rvs({ 3, 1.5 })), V::integer(1) }); } else { auto st = g.pick({ PdfStrokeStyle::Dash, PdfStrokeStyle::Dot, PdfStrokeStyle::DashDot, PdfStrokeStyle::DashDotDot }); bool inv = g.coin(); double sc = g.pick({ 1.0, 2.0, 0.5 }); bool sub = g.coin(); g.trace("stroke style ", (int)st, inv ? " inverted" : "", " ", sc, sub ? " join" : ""); p->SetStrokeStyle(st, { }, inv, sc, sub); op("d", { V::arr({ V::integer(-1) }), V::integer(0) }); } break; }
            case 6: { auto c = colour(true); g.trace("fill ", out->back().name, " ", ref::show(V::arr(out->back().a))); s.SetFillColor(c); break; }
            case 7: { auto c = colour(false); g.trace("stroke ", out->back().name, " ", ref::show(V::arr(out->back().a))); s.SetStrokeColor(c); break; }
            case 8: { if (ext.empty()) break; size_t i = g.index(ext.size()); g.trace("ext state ", i); p->SetExtGState(*ext[i]); op("gs", { V::refTo(ext[i]->GetObject().GetIndirectReference().ObjectNumber()) }); break; }
            default: { if (matrixSet) break; matrixSet = true; double m[6]; switch (g.draw(2)) { case 0: { double v[6] = { 1, 0, 0, 1, R(g), R(g) }; std::copy(v, v + 6, m); break; } case 1: { double v[6] = { 2, 0, 0, -0.5, 10, 20 }; std::copy(v, v + 6, m); break; } default: { double v[6] = { 0.5, 0.25, -1, 1.5, 3, -7.5 }; std::copy(v, v + 6, m); } }
                g.trace("matrix ", m[0], " ", m[1], " ", m[2], " ", m[3], " ", m[4], " ", m[5]); s.SetCurrentMatrix(Matrix::FromCoefficients(m[0], m[1], m[2], m[3], m[4], m[5])); op("cm", rvs({ m[0], m[1], m[2], m[3], m[4], m[5] })); } }
    }
    void end(bool clipOk = true) { marks++; switch (g.weighted({ 3, 3, 2, 1, clipOk ? 1u : 0u })) { case 0: g.trace("  stroke"); p->Stroke(); op("S"); break; case 1: { bool e = g.coin(); g.trace("  fill", e ? "*" : ""); p->Fill(e); op(e ? "f*" : "f"); break; } case 2: { bool e = g.coin(); g.trace("  fill and stroke", e ? "*" : ""); p->FillAndStroke(e); op(e ? "B*" : "B"); break; } case 3: g.trace("  end"); p->EndPath(); op("n"); marks--; break; default: { bool e = g.coin(); g.trace("  clip", e ? "*" : ""); p->Clip(e); op(e ? "W*" : "W"); op("n"); } } }
    void cubic(double a, double b, double c, double d, double e, double f) { op("c", rvs({ a, b, c, d, e, f })); }
    void path() {
        double x = R(g), y = R(g), w = R(g), h = R(g);
        switch (g.weighted({ 6, 2, 1, 1, 1, 1, 1 })) {
            case 0: { g.trace("path ", x, " ", y); p->MoveTo(x, y); op("m", rvs({ x, y })); double cx = x, cy = y, lx = x, ly = y; int last = 0; // 1 cubic 2 quadratic
                for (unsigned n = 1 + g.size(5); n--;) { double a = R(g), b = R(g), c = R(g), d = R(g), e = R(g), f = R(g); int k = (int)g.weighted({ 4, 3, 1, 1, 2, 2, 2, 1 });
                    if (k == 4 && last == 2) k = 0; if (k == 6 && last == 1) k = 0;
                    switch (k) {
                        case 0: g.trace("  line ", a, " ", b); p->LineTo(a, b); op("l", rvs({ a, b })); cx = lx = a; cy = ly = b; last = 0; break;
                        case 1: g.trace("  cubic"); p->CubicBezierTo(a, b, c, d, e, f); cubic(a, b, c, d, e, f); cx = e; cy = f; lx = c; ly = d; last = 1; break;
                        case 2: g.trace("  horizontal ", a); p->HorizontalLineTo(a); op("l", rvs({ a, cy })); cx = lx = a; ly = cy; last = 0; break;
                        case 3: g.trace("  vertical ", a); p->VerticalLineTo(a); op("l", rvs({ cx, a })); cy = ly = a; lx = cx; last = 0; break;
                        case 4: g.trace("  smooth"); p->SmoothCurveTo(a, b, c, d); cubic(2 * cx - lx, 2 * cy - ly, a, b, c, d); cx = c; cy = d; lx = a; ly = b; last = 1; break;
                        case 5: g.trace("  quad"); p->QuadCurveTo(a, b, c, d); cubic((cx + 2 * a) / 3, (cy + 2 * b) / 3, (c + 2 * a) / 3, (d + 2 * b) / 3, c, d); cx = c; cy = d; lx = a; ly = b; last = 2; break;
                        case 6: { g.trace("  smooth quad"); double qx = 2 * cx - lx, qy = 2 * cy - ly; p->SmoothQuadCurveTo(a, b); cubic((cx + 2 * qx) / 3, (cy + 2 * qy) / 3, (a + 2 * qx) / 3, (b + 2 * qy) / 3, a, b); cx = a; cy = b; lx = qx; ly = qy; last = 2; break; }
                        default: { // elliptic arc through a feasible end point
                            double rx = 5 + g.draw(100), ry = 5 + g.draw(100), rot = (double)g.draw(6) * 0.5, t0 = (double)g.draw(62) * 0.1, dt = 0.3 + (double)g.draw(50) * 0.1; bool sweep = g.coin(), large = dt > M_PI; double t1 = t0 + (sweep ? dt : -dt); if (std::abs(dt - M_PI) < 0.15) { dt = 2; large = false; t1 = t0 + (sweep ? dt : -dt); }
                            double cr = cos(rot), sr = sin(rot); auto X = [&](double u, double v) { return cr * rx * u - sr * ry * v; }; auto Y = [&](double u, double v) { return sr * rx * u + cr * ry * v; }; double ox = cx - X(cos(t0), sin(t0)), oy = cy - Y(cos(t0), sin(t0)); double ex = ox + X(cos(t1), sin(t1)), ey = oy + Y(cos(t1), sin(t1)); g.trace("  arc to ", ex, " ", ey, " radii ", rx, " ", ry, " rotation ", rot, large ? " large" : "", sweep ? " sweep" : "");
                            p->ArcTo(ex, ey, rx, ry, rot, large, sweep); int ns = (int)std::ceil(dt / (M_PI / 2 + 0.001)); double st = (t1 - t0) / ns, kk = 4.0 / 3 * tan(st / 4);
                            for (int i = 0; i < ns; i++) { double u = t0 + i * st, v = u + st; double p1u = cos(u) - kk * sin(u), p1v = sin(u) + kk * cos(u), p2u = cos(v) + kk * sin(v), p2v = sin(v) - kk * cos(v); cubic(ox + X(p1u, p1v), oy + Y(p1u, p1v), ox + X(p2u, p2v), oy + Y(p2u, p2v), ox + X(cos(v), sin(v)), oy + Y(cos(v), sin(v))); }
                            cx = lx = ex; cy = ly = ey; last = 0; pbt_label("arc"); } } }
                if (g.chance(1, 3)) { g.trace("  close"); if (g.coin()) p->ClosePath(); else p->Close(); op("h"); } end(); break; }
            case 1: g.trace("rectangle ", x, " ", y, " ", w, " ", h); if (g.coin()) p->Rectangle(x, y, w, h); else { w = std::abs(w); h = std::abs(h); p->Rectangle(PdfRect(x, y, w, h)); } op("re", rvs({ x, y, w, h })); end(); break;
            case 2: { double rx = g.pick({ 3.0, 0.5, 7.25 }), ry = g.pick({ 3.0, 0.25, 10.0 }), b = 0.4477; w = 30 + g.draw(50); h = 30 + g.draw(50); g.trace("rounded rectangle ", x, " ", y, " ", w, " ", h, " ", rx, " ", ry); p->Rectangle(x, y, w, h, rx, ry);
                op("m", rvs({ x + rx, y })); op("l", rvs({ x + w - rx, y })); cubic(x + w - rx * b, y, x + w, y + ry * b, x + w, y + ry); op("l", rvs({ x + w, y + h - ry })); cubic(x + w, y + h - ry * b, x + w - rx * b, y + h, x + w - rx, y + h); op("l", rvs({ x + rx, y + h })); cubic(x + rx * b, y + h, x, y + h - ry * b, x, y + h - ry); op("l", rvs({ x, y + ry })); cubic(x, y + ry * b, x + rx * b, y, x + rx, y); end(); break; }
            case 3: { double kx = w * 0.27614237491539667, ky = h * 0.27614237491539667, mx = x + w / 2, my = y + h / 2; g.trace("ellipse ", x, " ", y, " ", w, " ", h); p->Ellipse(x, y, w, h); op("m", rvs({ x, my })); cubic(x, my - ky, mx - kx, y, mx, y); cubic(mx + kx, y, x + w, my - ky, x + w, my); cubic(x + w, my + ky, mx + kx, y + h, mx, y + h); cubic(mx - kx, y + h, x, my + ky, x, my); end(); break; }
            case 4: { double r = std::abs(w) + 0.5, k = r * 0.5522847498307936; g.trace("circle ", x, " ", y, " ", r); p->Circle(x, y, r); op("m", rvs({ x + r, y })); cubic(x + r, y + k, x + k, y + r, x, y + r); cubic(x - k, y + r, x - r, y + k, x - r, y); cubic(x - r, y - k, x - k, y - r, x, y - r); cubic(x + k, y - r, x + r, y - k, x + r, y); op("h"); end(); break; }
            case 5: g.trace("line ", x, " ", y, " ", w, " ", h); p->DrawLine(x, y, w, h); op("m", rvs({ x, y })); op("l", rvs({ w, h })); op("S"); marks++; break;
            default: w = std::abs(w); h = std::abs(h); g.trace("clip rectangle ", x, " ", y, " ", w, " ", h); if (g.coin()) p->SetClipRect(x, y, w, h); else p->SetClipRect(PdfRect(x, y, w, h)); op("re", rvs({ x, y, w, h })); op("W"); op("n"); }
    }
    void pbt_label(const char* l) { g.label(l); }
    std::string str() { static const std::string al = "Hello world (x) \\ [A] <b> 1%/"; std::string s; for (unsigned n = 1 + g.size(10); n--;) s += al[g.index(al.size())]; if (g.chance(1, 4)) { s.insert(g.index(s.size() + 1), "\t"); g.label("tab"); } return s; }
    static std::string tabs(const std::string& s) { std::string r; for (char c : s) if (c == '\t') r += "    "; else r += c; return r; }
    void text() {
        if (!ts.font) setText(0); double x = R(g), y = R(g); std::string s = str(); marks++;
        switch (g.weighted({ 3, 2, 1, 1 })) {
            case 0: g.trace("text ", pbt::show(s), " at ", x, " ", y); p->DrawText(s, x, y); op("BT"); textOps(); op("Td", rvs({ x, y })); op("Tj", { V::str(tabs(s)) }); op("ET"); break;
            case 1: { g.trace("begin text ", x, " ", y); p->BeginText(x, y); op("BT"); textOps(); op("Td", rvs({ x, y })); inText = true;
                for (unsigned n = 1 + g.size(4); n--;) switch (g.weighted({ 4, 2, 2, 1 })) { case 0: { s = str(); g.trace("  add ", pbt::show(s)); p->AddText(s); op("Tj", { V::str(tabs(s)) }); break; } case 1: { x = R(g); y = R(g); g.trace("  move ", x, " ", y); p->MoveTextPos(x, y); op("Td", rvs({ x, y })); break; } case 2: setText((unsigned)g.draw(4)); break; default: { double w = g.pick({ 0.25, 2.0, 1.0 }); g.trace("  line width ", w); p->GetGraphicsState().SetLineWidth(w); op("w", rvs({ w })); } }
                g.trace("end text"); p->EndText(); op("ET"); inText = false; break; }
            default: { double w = 100 + g.draw(300); int al = (int)g.draw(2); double len = ts.font->GetStringLength(tabs(s), p_state()); double px = al == 0 ? x : al == 1 ? x + (w - len) / 2 : x + w - len;
                if (g.coin()) { g.trace("aligned text ", pbt::show(s), " ", al); p->DrawTextAligned(s, x, y, w, (PdfHorizontalAlignment)al); op("BT"); textOps(); op("Td", rvs({ px, y })); op("Tj", { V::str(tabs(s)) }); op("ET"); }
                else { double h = 20 + g.draw(100); bool clip = g.coin(); g.trace("multi line text ", pbt::show(s), " ", al, clip ? " clipped" : ""); p->DrawMultiLineText(s, x, y, w, h, (PdfHorizontalAlignment)al, (PdfVerticalAlignment)g.draw(2), clip); op("q"); if (clip) { op("re", rvs({ x, y, w, h })); op("W"); op("n"); } op("BT"); textOps(); op("Td", { rv(px), V::str("any") }); op("Tj", { V::str(tabs(s)) }); op("ET"); op("Q"); } } }
    }
    PdfTextState p_state() { PdfTextState t; t.Font = ts.font; t.FontSize = ts.size; t.FontScale = ts.scale; t.CharSpacing = ts.tc; t.WordSpacing = ts.tw; t.RenderingMode = (PdfTextRenderingMode)(ts.tr + 1); return t; }
    void some(unsigned n, unsigned depth) {
        while (n--) switch (g.weighted({ 6, 5, 3, 3, depth ? 2u : 0u, 1, 1 })) {
            case 0: state(); break; case 1: path(); break; case 2: text(); break; case 3: setText((unsigned)g.draw(4)); break;
            case 4: { bool m = matrixSet; g.trace("save"); p->Save(); op("q"); some(1 + g.size(4), depth - 1); g.trace("restore"); p->Restore(); op("Q"); matrixSet = m; retext(); break; }
            case 5: { if (xobj.empty()) break; auto x = g.pick(xobj); double px = R(g), py = R(g), sx = g.pick({ 1.0, 0.5, 2.0, -1.0 }), sy = g.pick({ 1.0, 3.0, -0.5 }); g.trace("xobject ", x->GetIdentifier().GetString()); p->DrawXObject(*x, px, py, sx, sy); op("q"); op("cm", rvs({ sx, 0, 0, sy, px, py })); op("Do", { V::refTo(x->GetObject().GetIndirectReference().ObjectNumber()) }); op("Q"); marks++; break; }
            default: { std::string t = g.pick({ "P", "Artifact", "x1" }); g.trace("begin marked ", t); p->BeginMarkedContext(t); op("BMC", { V::name(t) }); some(g.size(3), depth ? depth - 1 : 0); g.trace("end marked"); p->EndMarkedContext(); op("EMC"); } }
    }
    // whether the text state of the painter follows Restore is left open: set it again
    void retext() { if (!ts.font) return; TS t = ts; auto& s = p->GetTextState(); s.SetFont(*t.font, t.size); s.SetFontScale(t.scale); s.SetCharSpacing(t.tc); s.SetWordSpacing(t.tw); s.SetRenderingMode((PdfTextRenderingMode)(t.tr + 1)); }
};
static Prog rawContent(pbt::Src& g, std::vector<std::string>& streams) {
    Prog p; for (unsigned n = 1 + g.size(4); n--;) { double a = (double)g.range(-50, 50), b = (double)g.draw(100) / 4; p.push_back({ "q", {} }); p.push_back({ "w", rvs({ b }) }); p.push_back({ "rg", rvs({ 0.5, 0, 1 }) }); p.push_back({ "re", rvs({ a, b, 10, 20 }) }); p.push_back({ g.pick({ "f", "B", "S" }), {} }); p.push_back({ "Q", {} }); }
    if (g.chance(1, 2)) { p.push_back({ "w", rvs({ 7 }) }); p.push_back({ "J", { V::integer(1) } }); p.push_back({ "m", rvs({ 1, 1 }) }); p.push_back({ "l", rvs({ 9, 9 }) }); p.push_back({ "S", {} }); }
    streams.assign(1, ""); auto tok = [&](const std::string& s) { if (g.chance(1, 12) && streams.size() < 4) streams.push_back(""); auto& t = streams.back(); if (t.size()) t += g.pick({ " ", "\n", "\r\n", " % c\n" }); t += s; };
    for (auto& o : p) { for (auto& v : o.a) tok(spell(v)); tok(o.name); } if (g.coin()) streams.back() += "\n"; return p;
}
static bool painter(pbt::Src& g) {
    auto doc = std::make_unique<PdfMemDocument>(); Draw d(g, *doc);
    d.fonts = { doc->GetFonts().GetStandard14Font(PdfStandard14FontType::Helvetica, PdfFontCreateParams{ PdfEncodingFactory::CreateWinAnsiEncoding() }), doc->GetFonts().GetStandard14Font(PdfStandard14FontType::TimesRoman, PdfFontCreateParams{ PdfEncodingFactory::CreateWinAnsiEncoding() }) }; CHECK("font", d.fonts[0] && d.fonts[1], "no standard fonts");
    for (unsigned i = g.size(2); i--;) { d.ext.push_back(std::make_unique<PdfExtGState>(*doc)); auto& e = *d.ext.back(); V w = V::dict({ { "Type", V::name("ExtGState") } }); for (unsigned n = 1 + g.size(4); n--;) switch (g.draw(8)) { case 0: { double v = unit(g); e.SetFillOpacity(v); w.m["ca"] = rv(v); break; } case 1: { double v = unit(g); e.SetStrokeOpacity(v); w.m["CA"] = rv(v); break; } case 2: { std::string b = g.pick({ "Multiply", "Normal", "Screen" }); e.SetBlendMode(b); w.m["BM"] = V::name(b); break; } case 3: { bool b = g.coin(); e.SetOverprint(b); w.m["OP"] = V::boolean(b); break; } case 4: { bool b = g.coin(); e.SetFillOverprint(b); w.m["op"] = V::boolean(b); break; } case 5: { bool b = g.coin(); e.SetStrokeOverprint(b); w.m["OP"] = V::boolean(b); break; } case 6: { bool b = g.coin(); e.SetNonZeroOverprint(b); w.m["OPM"] = V::integer(b); break; } case 7: { e.SetRenderingIntent("Perceptual"); w.m["RI"] = V::name("Perceptual"); break; } default: { double f = 10 + g.draw(100); e.SetFrequency(f); w.m["HT"] = V::dict({ { "HalftoneType", V::integer(1) }, { "Frequency", rv(f) }, { "Angle", rv(45) }, { "SpotFunction", V::name("SimpleDot") } }); } } d.extWant.push_back(w); }
    struct C { PdfPage* page = nullptr; std::unique_ptr<PdfXObjectForm> form; Prog want; bool any = false, loose = false; }; std::vector<C> cs(1 + g.draw(2));
    for (size_t i = 0; i < cs.size(); i++) { auto& c = cs[i]; std::vector<std::string> streams; bool old = g.chance(1, 3); if (old) { c.want = rawContent(g, streams); c.any = true; for (auto& s : streams) g.trace("canvas ", i, " has ", pbt::show(s)); c.loose = true; }
        if (g.chance(1, 4)) { c.form = doc->CreateXObjectForm(PdfRect(0, 0, 100, 100)); if (old) { std::string all; for (auto& s : streams) all += (all.empty() ? "" : " ") + s; c.form->GetObject().GetOrCreateStream().SetData(bufferview(all.data(), all.size())); } d.xobj.push_back(c.form.get()); g.label("form"); }
        else { c.page = &doc->GetPages().CreatePage(PdfRect(0, 0, 600, 800)); if (old) { auto& ct = c.page->GetOrCreateContents(); for (auto& x : streams) ct.GetStreamForAppending(PdfStreamAppendFlags::NoSaveRestorePrior).SetData(bufferview(x.data(), x.size())); if (streams.size() > 1) g.label("several streams"); } } }
    auto flagsOf = [&](const C& c) { int f = 0; if (g.chance(1, 4) && !c.loose) f |= (int)PdfPainterFlags::NoSaveRestorePrior; if (g.chance(1, 4)) f |= (int)PdfPainterFlags::NoSaveRestore; return f; };
    std::unique_ptr<PdfPainter> shared; Draw::TS sharedTs; bool reused = false;
    for (unsigned n = 1 + g.size(4); n--;) {
        size_t ci = g.index(cs.size()); auto& c = cs[ci]; PdfCanvas& canvas = c.page ? (PdfCanvas&)*c.page : (PdfCanvas&)*c.form;
        int fl = flagsOf(c); std::unique_ptr<PdfPainter> own; bool sh = g.coin() && !c.loose && (fl = 0, true);
        if (c.loose && fl & (int)PdfPainterFlags::NoSaveRestorePrior) fl &= ~(int)PdfPainterFlags::NoSaveRestorePrior;
        if (sh) { if (!shared) shared = std::make_unique<PdfPainter>(); else { reused = true; g.label("reused painter"); } d.p = shared.get(); } else { own = std::make_unique<PdfPainter>((PdfPainterFlags)fl); d.p = own.get(); d.ts = Draw::TS(); }
        if (sh) d.ts = sharedTs;
        g.trace("session on canvas ", ci, sh ? " shared" : "", " flags ", fl); Prog fresh; d.out = &fresh; d.matrixSet = false;
        auto saveX = d.xobj; if (c.form) d.xobj.clear(); unsigned prec = 0; if (!sh && g.chance(1, 8)) { prec = (unsigned)g.range(4, 9); d.p->SetPrecision((unsigned short)prec); CHECK_EQ("precision", (unsigned)d.p->GetPrecision(), prec, "precision"); }
        d.p->SetCanvas(canvas); d.some(g.size(10), 3); d.path(); d.p->FinishDrawing(); d.xobj = saveX; if (sh) sharedTs = d.ts;
        if (fresh.empty()) { continue; }
        // sessions that only set text state write nothing
        Prog all; bool wrapOld = !(fl & (int)PdfPainterFlags::NoSaveRestorePrior) && c.any; if (wrapOld) all.push_back({ "q", {} }); all.insert(all.end(), c.want.begin(), c.want.end()); if (wrapOld) all.push_back({ "Q", {} });
        bool wrap = !(fl & (int)PdfPainterFlags::NoSaveRestore); if (wrap) all.push_back({ "q", {} }); all.insert(all.end(), fresh.begin(), fresh.end()); if (wrap) all.push_back({ "Q", {} }); c.want = all; c.any = true; c.loose = !wrap;
        if (wrapOld) g.label("appended to saved content"); else if (fl & 2) g.label("appended to raw content");
    }
    std::vector<std::pair<int64_t, Prog*>> todo; for (auto& c : cs) todo.push_back({ (c.page ? c.page->GetObject() : c.form->GetObject()).GetIndirectReference().ObjectNumber(), &c.want });
    for (auto& c : cs) { PdfContentReaderArgs args; args.Flags = PdfContentReaderFlags::DontFollowXObjectForms; PdfContentsReader rd(c.page ? (const PdfCanvas&)*c.page : (const PdfCanvas&)*c.form, args); PdfContent ct; while (rd.TryReadNext(ct)) CHECK("reader", (ct.Type == PdfContentType::Operator || ct.Type == PdfContentType::DoXObject) && ct.Warnings == PdfContentWarnings::None, "painted content is read with warnings at " + std::string(ct.Keyword)); }
    std::string file = refmm::save(*doc, PdfSaveOptions::NoCollectGarbage); auto rr = readStrict(file); auto& dd = rr.doc;
    for (size_t i = 0; i < d.ext.size(); i++) CHECK_EQ("ext state", diff(dd.objs.at(d.ext[i]->GetObject().GetIndirectReference().ObjectNumber()).v, d.extWant[i], DiffOpt{ 1e-6 }), std::string(), "extended graphics state");
    auto objs = refgraph::ofStrict(dd);
    for (size_t i = 0; i < cs.size(); i++) {
        int64_t num = todo[i].first; auto& o = dd.objs.at(num); std::string bytes; V res;
        if (cs[i].form) { bytes = o.hasStream ? decodeStream(o.v, o.raw, &dd) : ""; if (auto r = o.v.get("Resources")) res = resolve(dd, *r); }
        else { if (auto ct = o.v.get("Contents")) { V cv = resolve(dd, *ct); std::vector<V> parts; if (cv.k == K::Arr) parts = cv.a; else parts = { *ct }; for (auto& x : parts) { CHECK("contents", x.k == K::Ref && dd.objs.count(x.i), "contents are not streams"); auto& so = dd.objs.at(x.i); if (so.hasStream) bytes += decodeStream(so.v, so.raw, &dd); bytes += "\n"; } } if (auto r = refgraph::inherited(objs, num, "Resources")) res = resolve(dd, *r); }
        Prog got; std::string err; bool ok = tokens(bytes, got, err) && ::bind(got, dd, res, err); CHECK("content", ok, err + " in " + pbt::show(bytes));
        Interp a, b; a.obj = b.obj = [&](int64_t n) { auto it = dd.objs.find(n); return it == dd.objs.end() ? V() : it->second.v; };
        a.run(got); CHECK("content", a.err.empty(), a.err + " in " + pbt::show(bytes));
        Prog want = *todo[i].second; for (auto& o : want) if (o.name == "Td" && o.a[1].k == K::Str) o.a[1] = rv(0); b.run(want); if (b.err.size()) throw std::runtime_error("harness: " + b.err);
        // positions of multi line text are not compared
        size_t te = 0; std::vector<char> free; { bool any = false; for (auto& o : *todo[i].second) { if (o.name == "Td") any = o.a[1].k == K::Str; if (o.name == "Tj") free.push_back(any); } }
        CHECK_EQ("marks", a.out.size(), b.out.size(), "number of painted marks in " + pbt::show(bytes));
        for (size_t k = 0; k < a.out.size(); k++) { auto& x = a.out[k]; auto& y = b.out[k]; std::string at = "mark " + std::to_string(k) + " of canvas " + std::to_string(i) + " in " + pbt::show(bytes);
            std::string gk = x.kind + " " + x.key, wk = y.kind + " " + y.key; auto dash = [](std::string s, bool any) { size_t p = s.find(" dash"); if (p == std::string::npos || !any) return s; size_t q = s.find(' ', p + 1); return s.substr(0, p) + (q == std::string::npos ? "" : s.substr(q)); }; bool anyDash = wk.find(" dashed") != std::string::npos; bool isText = y.kind == "text", fr = isText && free[te++];
            CHECK_EQ("mark", dash(gk, anyDash), dash(wk, anyDash), at);
            std::vector<double> gn = x.n, wn = y.n; if (anyDash) { CHECK("dash", gn.size() > wn.size(), "no dash pattern: " + at); size_t base = y.kind == "text" ? 10 : 0; if (!base) { base = 0; for (char ch : y.key) { if (ch == 'm' || ch == 'l') base += 2; else if (ch == 'c') base += 6; else if (ch == 'r') base += 8; else if (ch == 'h') { } else break; } } gn.erase(gn.begin() + (long)base + 3, gn.begin() + (long)base + 3 + (long)(gn.size() - wn.size())); }
            CHECK_EQ("mark", gn.size(), wn.size(), "numbers of " + at); for (size_t j = 0; j < gn.size(); j++) { if (fr && (j == 4 || j == 5)) continue; double tol = 2e-3 * std::max(1.0, std::abs(wn[j]) * 1e-3); CHECK("mark", std::abs(gn[j] - wn[j]) <= tol, "number " + std::to_string(j) + " is " + std::to_string(gn[j]) + " and not " + std::to_string(wn[j]) + ": " + gk + ": " + at); } }
    }
    if (d.marks >= 2 && d.changes) g.nontrivial();
    return true;
}
PROP(C22, painter, 8000, 60000, 60) { painter(g); }

// ---- contents reader ----
struct RItem { int kind = 0; std::string name; std::vector<V> a; V dict; bool junk = false, delim = true; std::string data; }; // 0 operator, 1 unknown keyword, 2 brace, 3 inline image, 4 Do
struct RCanvas { int64_t obj = 0; std::vector<RItem> items; std::vector<V> tail; std::map<std::string, int> res; std::vector<std::string> pieces; }; // res: index of canvas, -1 image, -2 not an XObject, -3 missing object
struct REv { int type; std::string name; std::vector<V> a; int warn = 0; V dict; std::string data; int64_t obj = 0; bool image = false; };
enum { E_OP, E_DICT, E_DATA, E_DO, E_END, E_UNK };
static const std::vector<std::pair<const char*, int>> g_ops{ {"w",1},{"J",1},{"j",1},{"M",1},{"d",2},{"ri",1},{"i",1},{"gs",1},{"q",0},{"Q",0},{"cm",6},{"m",2},{"l",2},{"c",6},{"v",4},{"y",4},{"h",0},{"re",4},{"S",0},{"s",0},{"f",0},{"F",0},{"f*",0},{"B",0},{"B*",0},{"b",0},{"b*",0},{"n",0},{"W",0},{"W*",0},{"BT",0},{"ET",0},{"Tc",1},{"Tw",1},{"Tz",1},{"TL",1},{"Tf",2},{"Tr",1},{"Ts",1},{"Td",2},{"TD",2},{"Tm",6},{"T*",0},{"Tj",1},{"TJ",1},{"'",1},{"\"",3},{"d0",2},{"d1",6},{"CS",1},{"cs",1},{"SC",-1},{"SCN",-1},{"sc",-1},{"scn",-1},{"G",1},{"g",1},{"RG",3},{"rg",3},{"K",4},{"k",4},{"sh",1},{"ID",0},{"EI",0},{"MP",1},{"DP",2},{"BMC",1},{"BDC",2},{"EMC",0},{"BX",0},{"EX",0} };
static bool wsByte(char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
static bool delimByte(char c) { return c && strchr("()<>[]{}/%", c); }
struct RGen {
    pbt::Src& g; std::string cur; bool split = false; std::vector<std::string>* pieces = nullptr;
    RGen(pbt::Src& g) : g(g) {}
    std::string ws() { std::string r; size_t n = 1 + g.draw(2); for (size_t i = 0; i < n; i++) { if (g.chance(1, 10)) r += "%" + g.pick<std::string>({ "", " c", "(", " Do q <<", "EI " }) + g.pick<std::string>({ "\n", "\r", "\r\n" }); else r += g.pick({ ' ', '\n', '\r', '\t', '\f', '\0' }); } return r; }
    void tok(const std::string& t) { // separated from the token before when that is required
        if (pieces && split && !cur.empty() && g.chance(1, 6)) { pieces->push_back(cur); cur.clear(); }
        if (cur.size()) { char c = cur.back(); bool need = !(delimByte(c) && c != '/' && c != '%') && !wsByte(c) && !delimByte(t[0]); if (need || g.chance(2, 3)) cur += ws(); } cur += t; }
    std::vector<V> operands(size_t n) { GenOpt o; o.refs = false; o.depth = 2; o.width = 4; o.maxStr = 12; std::vector<V> r; for (size_t i = 0; i < n; i++) r.push_back(g.chance(1, 2) ? V::integer(g.range(-20, 300)) : ref::gen(g, o)); return r; }
    void put(const V& v) { tok(spell(v, &g)); }
    void image(RItem& it) {
        GenOpt o; o.refs = false; o.nulls = false; o.depth = 1; o.width = 3; o.maxStr = 8; it.dict = V::dict();
        std::vector<std::string> keys{ "W", "H", "BPC", "CS", "F", "DP", "D", "IM", "I", "Intent", "Width", "Some" }; size_t n = g.draw(5); tok("BI");
        for (size_t i = 0; i < n; i++) { if (g.chance(1, 15)) { it.junk = true; int j = (int)g.draw(3); if (j == 0) put(V::str("x")); else if (j == 1) put(V::integer(7)); else tok(j == 2 ? "junk" : "}"); } std::string k = keys[g.draw(keys.size() - 1)]; if (it.dict.get(k)) continue; V v = g.coin() ? V::integer((int64_t)g.draw(300)) : ref::gen(g, o); put(V::name(k)); put(v); it.dict.m[k] = v; }
        tok("ID"); bool nl = g.coin(); std::string sep = g.pick<std::string>({ "\n", " ", "\r\n" });
        it.data = g.coin() ? g.bytes(40) : ""; if (it.data.empty()) { size_t k = g.draw(60); for (size_t i = 0; i < k; i++) it.data += g.pick({ 'E', 'I', 'x', ' ', '\n', '%', '(', '\0' }); }
        std::string t = it.data + sep; for (size_t i = 0; i + 2 < t.size(); i++) if (t[i] == 'E' && t[i + 1] == 'I' && wsByte(t[i + 2])) { t[i + 1] = 'x'; it.data[i + 1] = 'x'; }
        if (g.chance(1, 40)) it.data += std::string(5000 + g.draw(5000), 'd'), t = it.data + sep; // larger than the buffer of the reader
        cur += (nl ? "\n" : " ") + t + "EI"; it.name = sep; it.delim = g.chance(1, 4); if (!it.delim) cur += g.pick({ ' ', '\n' }); }
    void gen(RCanvas& c, size_t n, const std::vector<std::string>& names, bool multi) {
        pieces = multi ? &c.pieces : nullptr; split = multi; cur.clear();
        for (size_t i = 0; i < n; i++) {
            RItem it; if (c.items.size() && c.items.back().kind == 3 && c.items.back().delim) cur += g.pick({ ' ', '\n', '\0' });
            it.kind = (int)g.weighted({ 12, 1, 1, 2, names.empty() ? 0u : 4u });
            if (it.kind == 0) { auto& o = g_ops[g.index(g_ops.size())]; it.name = o.first; int ct = o.second < 0 ? (int)g.draw(5) : o.second; if (o.second >= 0 && g.chance(1, 8)) ct = g.coin() && ct ? ct - 1 : ct + 1 + (int)g.draw(1); it.a = operands((size_t)ct); for (auto& v : it.a) put(v); tok(it.name); }
            else if (it.kind == 1) { it.name = g.pick({ "foo", "Q1", "EIx", "obj", "endstream", "qq", "Tx", "R", "f**", "BIx", "w'" }); it.a = operands(it.name == "R" ? 0 : g.draw(2)); for (auto& v : it.a) put(v); tok(it.name); }
            else if (it.kind == 2) { it.a = operands(g.draw(2)); for (auto& v : it.a) put(v); tok(g.coin() ? "{" : "}"); }
            else if (it.kind == 3) { it.a = g.chance(1, 8) ? operands(1 + g.draw(1)) : std::vector<V>(); for (auto& v : it.a) put(v); image(it); }
            else { it.name = g.pick(names); it.a = { V::name(it.name) }; if (g.chance(1, 12)) { auto x = operands(1); if (g.coin()) it.a.push_back(x[0]); else it.a.insert(it.a.begin(), x[0]); } else if (g.chance(1, 15)) it.a.clear(); else if (g.chance(1, 15)) it.a = { V::integer(3) }; for (auto& v : it.a) put(v); tok("Do"); }
            c.items.push_back(it);
        }
        if (g.chance(1, 5)) { if (c.items.size() && c.items.back().kind == 3 && c.items.back().delim) cur += ' '; c.tail = operands(1 + g.draw(2)); for (auto& v : c.tail) put(v); } if (g.coin() && !(c.items.size() && c.items.back().kind == 3)) cur += ws();
        c.pieces.push_back(cur);
    }
};
static void expectRead(const std::vector<RCanvas>& cs, int c, std::vector<int>& stack, bool follow, bool canvas, bool handler, int64_t image, std::vector<REv>& out) {
    stack.push_back(c);
    for (auto& it : cs[c].items) {
        if (out.size() > 3000) break; REv e; e.a = it.a; e.name = it.name; const int bad = 1, spurious = 2, inv = 4, rec = 8, dict = 16; size_t n = it.a.size();
        if (it.kind == 0) { e.type = E_OP; int ct = -1; for (auto& o : g_ops) if (it.name == o.first) ct = o.second; if (ct >= 0 && n != (size_t)ct) e.warn = n < (size_t)ct ? bad : spurious; out.push_back(e); }
        else if (it.kind == 1) { e.type = E_UNK; out.push_back(e); } else if (it.kind == 2) { e.type = E_UNK; e.name = "{"; out.push_back(e); }
        else if (it.kind == 3) { e.type = E_DICT; e.dict = it.dict; e.warn = (n ? spurious : 0) | (it.junk ? dict : 0); out.push_back(e); if (!handler) { REv d; d.type = E_DATA; d.data = it.data; d.name = it.name; out.push_back(d); } }
        else {
            e.warn = n == 1 ? 0 : n < 1 ? bad : spurious; e.name = "Do"; e.type = E_OP;
            if (!canvas) { out.push_back(e); continue; }
            auto f = n == 1 && it.a[0].k == K::Name ? cs[c].res.find(it.a[0].s) : cs[c].res.end(); int t = f == cs[c].res.end() ? -2 : f->second;
            if (t < -1) { e.warn |= inv; out.push_back(e); continue; }
            e.type = E_DO; e.name = it.a[0].s; e.obj = t >= 0 ? cs[t].obj : image; e.image = t < 0;
            if (t >= 0 && std::count(stack.begin(), stack.end(), t)) { e.warn |= rec; out.push_back(e); continue; } out.push_back(e);
            if (t >= 0 && follow) { expectRead(cs, t, stack, follow, canvas, handler, image, out); REv x; x.type = E_END; x.a = cs[t].tail; x.warn = x.a.size() ? spurious : 0; out.push_back(x); }
        }
    }
    stack.pop_back();
}
static void reader(pbt::Src& g) {
    PdfMemDocument doc; std::vector<RCanvas> cs(1 + g.draw(3)); RGen rg(g); size_t total = 0; bool forms = cs.size() > 1, multi = g.chance(1, 3);
    std::vector<std::string> names{ "Im0", "Bad", "Gone", "No" }; for (size_t i = 1; i < cs.size(); i++) names.push_back("F" + std::to_string(i)), names.push_back("F" + std::to_string(i)); if (g.chance(1, 3)) names.clear();
    auto& img = doc.GetObjects().CreateDictionaryObject("XObject", "Image"); img.GetDictionary().AddKey("Width", (int64_t)1); img.GetDictionary().AddKey("Height", (int64_t)1); img.GetDictionary().AddKey("ColorSpace", PdfName("DeviceGray")); img.GetDictionary().AddKey("BitsPerComponent", (int64_t)8); img.GetOrCreateStream().SetData(bufferview("x", (size_t)1));
    int64_t imageNum = img.GetIndirectReference().ObjectNumber(); auto& bad = doc.GetObjects().CreateDictionaryObject(); bad.GetDictionary().AddKey("Foo", (int64_t)1);
    auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 300, 300)); std::vector<PdfObject*> objs{ &page.GetObject() };
    for (size_t i = 1; i < cs.size(); i++) { auto& o = doc.GetObjects().CreateDictionaryObject("XObject", "Form"); PdfArray bb; for (int k = 0; k < 4; k++) bb.Add((int64_t)(k * 50)); o.GetDictionary().AddKey("BBox", bb); objs.push_back(&o); cs[i].obj = o.GetIndirectReference().ObjectNumber(); }
    for (size_t i = 0; i < cs.size(); i++) {
        PdfDictionary xo; for (auto& nme : names) { int t = nme == "Im0" ? -1 : nme == "Bad" ? -2 : nme == "Gone" ? -3 : nme == "No" ? -4 : nme[1] - '0'; if (t == -4 || (t > 0 && g.chance(1, 8))) continue; cs[i].res[nme] = t; xo.AddKey(PdfName(nme), PdfObject(t >= 0 ? objs[t]->GetIndirectReference() : t == -1 ? img.GetIndirectReference() : t == -2 ? bad.GetIndirectReference() : PdfReference(9000, 0))); }
        if (xo.GetSize() || g.coin()) { PdfDictionary r; if (xo.GetSize() || g.coin()) r.AddKey("XObject", PdfObject(xo)); objs[i]->GetDictionary().AddKey("Resources", PdfObject(r)); }
        rg.gen(cs[i], g.draw(i ? 8 : 14), names, i == 0 && multi); total += cs[i].items.size();
        auto fill = [&](PdfObject& o, const std::string& s) { if (g.coin()) o.GetOrCreateStream().SetData(bufferview(s.data(), s.size()), { PdfFilterType::FlateDecode }); else o.GetOrCreateStream().SetData(bufferview(s.data(), s.size()), PdfFilterList()); };
        if (i) { fill(*objs[i], cs[i].pieces[0]); continue; }
        if (!multi && g.coin()) { auto& s = doc.GetObjects().CreateDictionaryObject(); fill(s, cs[0].pieces[0]); objs[0]->GetDictionary().AddKey("Contents", PdfObject(s.GetIndirectReference())); }
        else { PdfArray arr; for (auto& p : cs[0].pieces) { if (g.chance(1, 8)) { auto& s = doc.GetObjects().CreateDictionaryObject(); fill(s, ""); arr.Add(s.GetIndirectReference()); } auto& s = doc.GetObjects().CreateDictionaryObject(); fill(s, p); arr.Add(s.GetIndirectReference()); } if (g.coin()) objs[0]->GetDictionary().AddKey("Contents", PdfObject(arr)); else objs[0]->GetDictionary().AddKeyIndirect("Contents", doc.GetObjects().CreateObject(PdfVariant(arr))); }
    }
    auto file = save(doc, PdfSaveOptions::NoCollectGarbage); auto d = loadMm(file);
    bool device = g.chance(1, 5), handler = g.chance(1, 4), follow = g.chance(3, 4), raise = g.chance(1, 5);
    PdfContentReaderArgs args; if (!follow) args.Flags |= PdfContentReaderFlags::DontFollowXObjectForms; if (raise) args.Flags |= PdfContentReaderFlags::ThrowOnWarnings;
    std::vector<REv> want; std::vector<int> st; expectRead(cs, 0, st, follow, !device, handler, imageNum, want); if (want.size() > 2000) return;
    std::vector<std::pair<V, std::string>> images; // for the handler, in order
    for (size_t i = 0; i < want.size(); i++) if (want[i].type == E_DICT) images.push_back({ want[i].dict, std::string() });
    size_t handled = 0; std::deque<std::string> datas; if (handler) { std::vector<REv> w2; st.clear(); expectRead(cs, 0, st, follow, !device, false, imageNum, w2); for (auto& e : w2) if (e.type == E_DATA) datas.push_back(e.data); }
    auto dictOf = [](const PdfDictionary& x) { return fromVar(PdfVariant(x)); };
    if (handler) args.InlineImageHandler = [&](const PdfDictionary& dict, InputStreamDevice& dev) {
        CHECK("handler", handled < images.size(), "the handler is called for more images than there are"); auto e = diff(dictOf(dict), images[handled].first); CHECK("handler", e.empty(), "dictionary given to the handler: " + e);
        std::string s(1 + datas[handled].size(), 0); size_t n = 0; char c; while (n < s.size() && dev.Read(c)) s[n++] = c; CHECK("handler", n == s.size() && s.substr(1) == datas[handled], "data given to the handler differ"); handled++; return true; };
    for (auto& p : cs[0].pieces) g.trace("piece ", pbt::show(p)); for (size_t i = 1; i < cs.size(); i++) g.trace("form ", i, " ", pbt::show(cs[i].pieces[0]));
    std::string joined; for (auto& p : cs[0].pieces) joined += p + "\n";
    std::unique_ptr<PdfContentsReader> r; auto& pg = d->GetPages().GetPageAt(0);
    if (device) r.reset(new PdfContentsReader(std::make_shared<SpanStreamDevice>(joined), args)); else r.reset(new PdfContentsReader(pg, args));
    PdfContent c; size_t i = 0; bool special = forms || cs[0].pieces.size() > 1;
    for (;; i++) {
        std::string at = "item " + std::to_string(i); bool got;
        try { got = r->TryReadNext(c); } catch (PdfError& e) { CHECK("raises", raise && i < want.size() && want[i].warn, at + " raises " + std::to_string((int)e.GetError())); CHECK_EQ("raises", (int)e.GetError(), (int)PdfErrorCode::InvalidContentStream, at); break; }
        if (!got) { CHECK("end", i == want.size(), "the contents end after " + std::to_string(i) + " of " + std::to_string(want.size()) + " items"); break; }
        CHECK("end", i < want.size(), "more items than there are: type " + std::to_string((int)c.Type)); auto& w = want[i]; if (w.type != E_OP || w.warn) special = true;
        CHECK("warnings", !(raise && w.warn), at + " has warnings but is not refused");
        PdfContentType types[] = { PdfContentType::Operator, PdfContentType::ImageDictionary, PdfContentType::ImageData, PdfContentType::DoXObject, PdfContentType::EndXObjectForm, PdfContentType::UnexpectedKeyword };
        CHECK("type", c.Type == types[w.type], at + " has type " + std::to_string((int)c.Type) + " instead of " + std::to_string((int)types[w.type]) + " " + w.name);
        CHECK_EQ("warnings", (int)c.Warnings, w.warn, at + " " + w.name);
        if (w.type != E_DATA) { std::vector<V> a; for (auto v = c.Stack.rbegin(); v != c.Stack.rend(); ++v) a.push_back(fromVar(*v)); auto e = diff(V::arr(a), V::arr(w.a)); CHECK("operands", e.empty(), at + " " + w.name + ": " + e); }
        if (w.type == E_OP) { CHECK_EQ("operator", std::string(c.Keyword), w.name, at); std::string_view back; CHECK("operator", TryGetPdfOperatorName(c.Operator, back) && back == w.name, at + " is " + std::string(back)); }
        else if (w.type == E_UNK) { if (w.name != "{") CHECK_EQ("keyword", std::string(c.Keyword), w.name, at); }
        else if (w.type == E_DICT) { auto e = diff(dictOf(c.InlineImageDictionary), w.dict); CHECK("image", e.empty(), at + ": " + e); }
        else if (w.type == E_DATA) { std::string s(c.InlineImageData.data(), c.InlineImageData.size()); CHECK("image", s == w.data || s == w.data + w.name, at + ": data " + pbt::show(s) + " instead of " + pbt::show(w.data)); }
        else if (w.type == E_DO) { CHECK("xobject", c.Name && c.XObject, at + " has no XObject"); CHECK_EQ("xobject", keyRaw(*c.Name), w.name, at); CHECK_EQ("xobject", (int64_t)c.XObject->GetObject().GetIndirectReference().ObjectNumber(), w.obj, at); CHECK("xobject", (c.XObject->GetType() == PdfXObjectType::Image) == w.image, at + " type"); }
        else CHECK("form", !c.XObject && !c.Name, at + " XObject at the end of a form");
        if (w.type != E_DICT) CHECK("stale", c.InlineImageDictionary.GetSize() == 0, at + " has an image dictionary");
        if (w.type != E_DATA) CHECK("stale", c.InlineImageData.size() == 0, at + " has image data");
        if (w.type == E_OP || w.type == E_UNK) CHECK("stale", !c.XObject && !c.Name, at + " has an XObject");
    }
    if (handler && !raise) CHECK_EQ("handler", handled, images.size(), "images handled");
    g.label(device ? "device" : follow ? "forms followed" : "forms not followed"); if (total >= 4 && special) g.nontrivial();
}
PROP(C22, reader, 16000, 150000, 60) { reader(g); }

// ---- colours ----
static const std::vector<std::pair<const char*, unsigned>> g_named{ {"aliceblue",0xF0F8FF},{"antiquewhite",0xFAEBD7},{"aqua",0x00FFFF},{"aquamarine",0x7FFFD4},{"azure",0xF0FFFF},{"beige",0xF5F5DC},{"bisque",0xFFE4C4},{"black",0x000000},{"blanchedalmond",0xFFEBCD},{"blue",0x0000FF},{"blueviolet",0x8A2BE2},{"brown",0xA52A2A},{"burlywood",0xDEB887},{"cadetblue",0x5F9EA0},{"chartreuse",0x7FFF00},{"chocolate",0xD2691E},{"coral",0xFF7F50},{"cornflowerblue",0x6495ED},{"cornsilk",0xFFF8DC},{"crimson",0xDC143C},{"cyan",0x00FFFF},{"darkblue",0x00008B},{"darkcyan",0x008B8B},{"darkgoldenrod",0xB8860B},{"darkgray",0xA9A9A9},{"darkgreen",0x006400},{"darkgrey",0xA9A9A9},{"darkkhaki",0xBDB76B},{"darkmagenta",0x8B008B},{"darkolivegreen",0x556B2F},{"darkorange",0xFF8C00},{"darkorchid",0x9932CC},{"darkred",0x8B0000},{"darksalmon",0xE9967A},{"darkseagreen",0x8FBC8F},{"darkslateblue",0x483D8B},{"darkslategray",0x2F4F4F},{"darkslategrey",0x2F4F4F},{"darkturquoise",0x00CED1},{"darkviolet",0x9400D3},{"deeppink",0xFF1493},{"deepskyblue",0x00BFFF},{"dimgray",0x696969},{"dimgrey",0x696969},{"dodgerblue",0x1E90FF},{"firebrick",0xB22222},{"floralwhite",0xFFFAF0},{"forestgreen",0x228B22},{"fuchsia",0xFF00FF},{"gainsboro",0xDCDCDC},{"ghostwhite",0xF8F8FF},{"gold",0xFFD700},{"goldenrod",0xDAA520},{"gray",0xBEBEBE},{"green",0x00FF00},{"greenyellow",0xADFF2F},{"grey",0xBEBEBE},{"honeydew",0xF0FFF0},{"hotpink",0xFF69B4},{"indianred",0xCD5C5C},{"indigo",0x4B0082},{"ivory",0xFFFFF0},{"khaki",0xF0E68C},{"lavender",0xE6E6FA},{"lavenderblush",0xFFF0F5},{"lawngreen",0x7CFC00},{"lemonchiffon",0xFFFACD},{"lightblue",0xADD8E6},{"lightcoral",0xF08080},{"lightcyan",0xE0FFFF},{"lightgoldenrod",0xEEDD82},{"lightgoldenrodyellow",0xFAFAD2},{"lightgray",0xD3D3D3},{"lightgreen",0x90EE90},{"lightgrey",0xD3D3D3},{"lightpink",0xFFB6C1},{"lightsalmon",0xFFA07A},{"lightseagreen",0x20B2AA},{"lightskyblue",0x87CEFA},{"lightslategray",0x778899},{"lightslategrey",0x778899},{"lightsteelblue",0xB0C4DE},{"lightyellow",0xFFFFE0},{"lime",0x00FF00},{"limegreen",0x32CD32},{"linen",0xFAF0E6},{"magenta",0xFF00FF},{"maroon",0xB03060},{"mediumaquamarine",0x66CDAA},{"mediumblue",0x0000CD},{"mediumorchid",0xBA55D3},{"mediumpurple",0x9370DB},{"mediumseagreen",0x3CB371},{"mediumslateblue",0x7B68EE},{"mediumspringgreen",0x00FA9A},{"mediumturquoise",0x48D1CC},{"mediumvioletred",0xC71585},{"midnightblue",0x191970},{"mintcream",0xF5FFFA},{"mistyrose",0xFFE4E1},{"moccasin",0xFFE4B5},{"navajowhite",0xFFDEAD},{"navy",0x000080},{"oldlace",0xFDF5E6},{"olive",0x808000},{"olivedrab",0x6B8E23},{"orange",0xFFA500},{"orangered",0xFF4500},{"orchid",0xDA70D6},{"palegoldenrod",0xEEE8AA},{"palegreen",0x98FB98},{"paleturquoise",0xAFEEEE},{"palevioletred",0xDB7093},{"papayawhip",0xFFEFD5},{"peachpuff",0xFFDAB9},{"peru",0xCD853F},{"pink",0xFFC0CB},{"plum",0xDDA0DD},{"powderblue",0xB0E0E6},{"purple",0xA020F0},{"red",0xFF0000},{"rosybrown",0xBC8F8F},{"royalblue",0x4169E1},{"saddlebrown",0x8B4513},{"salmon",0xFA8072},{"sandybrown",0xF4A460},{"seagreen",0x2E8B57},{"seashell",0xFFF5EE},{"sienna",0xA0522D},{"silver",0xC0C0C0},{"skyblue",0x87CEEB},{"slateblue",0x6A5ACD},{"slategray",0x708090},{"slategrey",0x708090},{"snow",0xFFFAFA},{"springgreen",0x00FF7F},{"steelblue",0x4682B4},{"tan",0xD2B48C},{"teal",0x008080},{"thistle",0xD8BFD8},{"tomato",0xFF6347},{"turquoise",0x40E0D0},{"violet",0xEE82EE},{"wheat",0xF5DEB3},{"white",0xFFFFFF},{"whitesmoke",0xF5F5F5},{"yellow",0xFFFF00},{"yellowgreen",0x9ACD32} };
static void colours(pbt::Src& g) {
    auto u = [&]() { switch (g.weighted({ 3, 2, 2 })) { case 0: return (double)g.draw(1000) / 1000; case 1: return g.pick({ 0.0, 1.0, 0.5, 1.0 / 3, 0.1, 1e-9, 1 - 1e-16 }); default: return (double)g.draw(0x7fffffff) / 0x7fffffff; } };
    double v[4] = { u(), u(), u(), u() }; int kind = (int)g.draw(4); auto make = [&](const double* x) { return kind == 0 ? PdfColor(x[0]) : kind == 1 ? PdfColor(x[0], x[1], x[2]) : kind == 2 ? PdfColor(x[0], x[1], x[2], x[3]) : kind == 3 ? PdfColor::CreateCieLab(x[0] * 100, x[1] * 255 - 128, x[2] * 255 - 128) : PdfColor::CreateSeparation("Spot", x[0], PdfColor(x[1], x[2], x[3])); };
    auto near = [](double a, double b) { return std::abs(a - b) <= 1e-9; }; auto sh = [&](const PdfColor& c) { return ref::show(fromVar(PdfVariant(c.ToArray()))); };
    size_t n = kind == 0 ? 1 : kind == 2 ? 4 : 3;
    PdfColor c = make(v); g.trace("colour ", sh(c));
    CHECK("kind", c.IsGrayScale() == (kind == 0) && c.IsRGB() == (kind == 1) && c.IsCMYK() == (kind == 2) && c.IsCieLab() == (kind == 3) && c.IsSeparation() == (kind == 4) && !c.IsTransparent(), "kind of the colour");
    if (kind == 0) CHECK("value", c.GetGrayScale() == v[0], "gray value"); if (kind == 1) CHECK("value", c.GetRed() == v[0] && c.GetGreen() == v[1] && c.GetBlue() == v[2], "RGB values");
    if (kind == 2) CHECK("value", c.GetCyan() == v[0] && c.GetMagenta() == v[1] && c.GetYellow() == v[2] && c.GetBlack() == v[3], "CMYK values"); if (kind == 3) CHECK("value", c.GetCieL() == v[0] * 100 && c.GetCieA() == v[1] * 255 - 128 && c.GetCieB() == v[2] * 255 - 128, "Lab values");
    if (kind == 4) CHECK("value", c.GetDensity() == v[0] && c.GetName() == "Spot" && c.GetAlternateColorSpace() == PdfColorSpace::DeviceRGB, "separation");
    PdfArray arr = c.ToArray(); CHECK_EQ("array", (size_t)arr.GetSize(), kind == 4 ? (size_t)1 : n, "components");
    for (unsigned i = 0; i < arr.GetSize(); i++) CHECK("array", arr[i].IsNumberOrReal() && near(arr[i].GetReal(), kind == 3 ? (i ? v[i] * 255 - 128 : v[0] * 100) : v[i]), "component " + std::to_string(i) + " of " + sh(c));
    if (kind <= 2) {
        PdfColor back = PdfColor::FromArray(arr); CHECK("array", back == c && !(back != c), "colour of its array is " + sh(back)); PdfColor b2; CHECK("array", PdfColor::TryCreateFromObject(PdfObject(arr), b2) && b2 == c, "colour of its array object");
        double rgb[3]; if (kind == 0) rgb[0] = rgb[1] = rgb[2] = v[0]; else if (kind == 1) std::copy(v, v + 3, rgb); else for (int i = 0; i < 3; i++) rgb[i] = (1 - v[i]) * (1 - v[3]);
        auto r = c.ConvertToRGB(); CHECK("convert", r.IsRGB() && near(r.GetRed(), rgb[0]) && near(r.GetGreen(), rgb[1]) && near(r.GetBlue(), rgb[2]), "RGB of " + sh(c) + " is " + sh(r));
        auto y = c.ConvertToGrayScale(); double gr = kind == 0 ? v[0] : 0.299 * rgb[0] + 0.587 * rgb[1] + 0.114 * rgb[2]; CHECK("convert", y.IsGrayScale() && near(y.GetGrayScale(), gr), "gray of " + sh(c) + " is " + sh(y));
        auto k = c.ConvertToCMYK(); CHECK("convert", k.IsCMYK(), "CMYK of " + sh(c)); if (kind == 2) CHECK("convert", k == c, "CMYK of " + sh(c) + " is " + sh(k));
        auto r2 = k.ConvertToRGB(); CHECK("convert", near(r2.GetRed(), rgb[0]) && near(r2.GetGreen(), rgb[1]) && near(r2.GetBlue(), rgb[2]), "RGB of the CMYK " + sh(k) + " of " + sh(c) + " is " + sh(r2));
        if (kind != 2) { double mn = std::min({ 1 - rgb[0], 1 - rgb[1], 1 - rgb[2] }); CHECK("convert", near(k.GetBlack(), mn), "black of " + sh(k)); }
        auto t = [&](const PdfColor& x) { return x.IsTransparent(); }; CHECK("convert", !t(r) && !t(y) && !t(k), "transparent");
    }
    double w[4] = { v[0], v[1], v[2], v[3] }; size_t at = g.index(4); w[at] = u(); PdfColor d = make(w); bool same = !std::memcmp(v, w, sizeof(double) * (kind == 4 ? 4 : n)); CHECK("equal", (c == d) == same && (c != d) == !same, sh(c) + " and " + sh(d));
    if (g.chance(1, 3)) { // values out of range
        at = g.index(kind == 4 ? 1 : n); std::copy(v, v + 4, w); w[at] = g.pick({ -0.01, 1.01, 2.0, -1.0, 1e9 }); bool raised = kind == 4; if (!raised) try { make(w); } catch (PdfError& e) { raised = e.GetError() == PdfErrorCode::ValueOutOfRange; } CHECK("range", raised, "component " + std::to_string(w[at]) + " is accepted"); }
    PdfArray wrong; size_t wn = g.pick({ 2, 5, 1, 3, 4 }); for (size_t i = 0; i < wn; i++) wrong.Add(PdfObject((int64_t)1)); if (wn != 2 && wn != 5) wrong[(unsigned)g.index(wn)] = PdfObject(g.coin() ? PdfVariant(PdfName("x")) : PdfVariant()); PdfColor keep = c; CHECK("array", !PdfColor::TryCreateFromArray(wrong, keep) && !PdfColor::TryCreateFromObject(PdfObject((int64_t)3), keep), "an array that is no colour is accepted");
    PdfColor t = PdfColor::FromArray(PdfArray()); CHECK("transparent", t.IsTransparent() && t == PdfColor::CreateTransparent() && t != PdfColor(0.0), "empty array");
    // strings
    std::string str; PdfColor want; char b[64];
    switch (g.draw(4)) {
        case 0: { double x = (double)g.draw(1000) / 1000; snprintf(b, sizeof b, "%.*f", (int)g.range(3, 6), x); str = b; if (x < 1 && g.coin()) str.erase(0, 1); want = PdfColor(x); break; }
        case 1: { unsigned q[3]; for (auto& x : q) x = (unsigned)g.draw(255); snprintf(b, sizeof b, g.coin() ? "#%02x%02x%02x" : "#%02X%02X%02X", q[0], q[1], q[2]); str = b; want = PdfColor(q[0] / 255.0, q[1] / 255.0, q[2] / 255.0); break; }
        case 2: { unsigned q[4]; for (auto& x : q) x = (unsigned)g.draw(255); snprintf(b, sizeof b, g.coin() ? "#%02x%02x%02x%02x" : "#%02X%02X%02X%02X", q[0], q[1], q[2], q[3]); str = b; want = PdfColor(q[0] / 255.0, q[1] / 255.0, q[2] / 255.0, q[3] / 255.0); break; }
        case 3: { if (kind > 2) kind = 1, n = 3; double q[4]; str = "["; for (size_t i = 0; i < n; i++) { q[i] = (double)g.draw(1000) / 1000; snprintf(b, sizeof b, "%s%.3f", i || g.coin() ? " " : "", q[i]); str += b; } str += g.coin() ? "]" : " ]"; want = make(q); break; }
        default: { auto& nm = g_named[g.index(g_named.size())]; str = nm.first; want = PdfColor((nm.second >> 16) / 255.0, (nm.second >> 8 & 255) / 255.0, (nm.second & 255) / 255.0); if (g.chance(1, 4)) for (auto& ch : str) if (g.coin()) ch = (char)toupper(ch); if (g.chance(1, 6)) { str += "x"; want = PdfColor(); } } }
    g.trace("string ", str); PdfColor f = PdfColor::FromString(str); bool ok = f.GetColorSpace() == want.GetColorSpace(); PdfArray fa = f.ToArray(), wa = want.ToArray(); for (unsigned i = 0; ok && i < wa.GetSize(); i++) ok = near(fa[i].GetReal(), wa[i].GetReal()); CHECK("string", ok, str + " is " + sh(f) + " instead of " + sh(want));
    std::string badHex = "#12G456"; bool raised = false; try { PdfColor::FromString(badHex); } catch (PdfError&) { raised = true; } CHECK("string", raised, "bad hex digits are accepted");
    g.label(kind == 0 ? "gray" : kind == 1 ? "RGB" : kind == 2 ? "CMYK" : kind == 3 ? "Lab" : "separation"); g.nontrivial();
}
PROP(C22, colours, 20000, 400000, 20) { colours(g); }
