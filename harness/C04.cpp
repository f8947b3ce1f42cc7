// C04: containers, variants and objects behave as independent values.
#include "refmm.h"
using namespace mm; using namespace ref; using namespace refmm;
static struct Init { Init() {
    pbt::g_rule = "a case counts when its history holds at least 5 changes of which at least one hits a value nested in a container, or compares two containers";
    pbt::g_assumptions = "moved-from values are only assigned to or destroyed afterwards\nequality of an indirect object is identity of its reference, as documented; other equality is by value, integers and reals being different\nstrings are ASCII here (their text is C03's subject)";
} } init;

struct Root { PdfObject* o; V v; bool indirect; bool stream = false; std::string data; };
struct World {
    PdfMemDocument doc; std::vector<Root> roots; std::vector<std::unique_ptr<PdfObject>> free_; pbt::Src& g; std::string log; unsigned nest = 0;
    World(pbt::Src& g) : g(g) { }
};
static GenOpt gopt(unsigned depth = 2) { GenOpt o; o.depth = depth; o.width = 5; o.dirtyStrings = false; o.rawNames = false; o.maxStr = 8; o.maxObj = 14; o.dictNulls = true; return o; }
struct Loc { Root* r; PdfObject* o; V* v; std::vector<V*> path; std::string where; bool nested() const { return path.size() > 1; } };

static Loc locate(World& w, bool intoStreams = true) {
    pbt::Src& g = w.g; Root* r = &w.roots[g.index(w.roots.size())]; Loc l{ r, r->o, &r->v, { &r->v }, std::string(r->indirect ? "obj" : "free") + std::to_string(r - w.roots.data()) };
    while (g.chance(3, 5)) {
        if (l.v->k == K::Arr && !l.v->a.empty()) { unsigned i = g.index(l.v->a.size()); l.o = &l.o->GetArray()[i]; l.v = &l.v->a[i]; l.where += "[" + std::to_string(i) + "]"; }
        else if (l.v->k == K::Dict && !l.v->m.empty()) { auto it = l.v->m.begin(); std::advance(it, g.index(l.v->m.size())); auto p = l.o->GetDictionary().GetKey(it->first); CHECK("lookup", p != nullptr, "key " << it->first << " of " << l.where << " not found"); l.o = p; l.v = &it->second; l.where += "/" + it->first; }
        else break;
        l.path.push_back(l.v);
    }
    return l;
}
static bool inside(const V* needle, const V& hay) { if (&hay == needle) return true; for (auto& x : hay.a) if (inside(needle, x)) return true; for (auto& x : hay.m) if (inside(needle, x.second)) return true; return false; }
static bool overlap(const Loc& a, const Loc& b) { return inside(a.v, *b.v) || inside(b.v, *a.v); }

static bool same(const V& a, const V& b) { return diff(a, b, DiffOpt{ -1, true, false }).empty(); }
static void checkTree(const PdfObject& o, const PdfDocument* doc, const std::string& where) {
    CHECK("document", o.GetDocument() == doc, "wrong owning document at " << where);
    if (o.IsArray()) { auto& a = o.GetArray(); CHECK("owner", a.GetOwner() == &o, "array at " << where << " has another owner"); unsigned i = 0; for (auto& x : a) { CHECK("parent", x.GetParent() == &a, "wrong parent at " << where << "[" << i << "]"); CHECK("not-indirect", !x.IsIndirect(), where); checkTree(x, doc, where + "[" + std::to_string(i++) + "]"); } }
    else if (o.IsDictionary()) { auto& d = o.GetDictionary(); CHECK("owner", d.GetOwner() == &o, "dictionary at " << where << " has another owner"); for (auto& x : d) { CHECK("parent", x.second.GetParent() == &d, "wrong parent at " << where << "/" << x.first.GetRawData()); checkTree(x.second, doc, where + "/" + x.first.GetRawData()); } }
}
static V valueOf(const Root& r) { V v = fromObj(*r.o); if (r.stream) { v.m.erase("Length"); v.m.erase("Filter"); v.m.erase("DecodeParms"); } return v; }
static void checkAll(World& w, const std::string& after) {
    unsigned i = 0;
    for (auto& r : w.roots) {
        std::string nm = (r.indirect ? "obj" : "free") + std::to_string(i++);
        auto d = diff(valueOf(r), r.v, DiffOpt{ 0, true, false }); CHECK("value", d.empty(), nm << " after " << after << ": " << d);
        CHECK_EQ("has-stream", r.o->HasStream(), r.stream, nm << " after " << after); if (r.stream) CHECK_EQ("stream", pbt::show(streamData(*r.o)), pbt::show(r.data), nm << " after " << after);
        checkTree(*r.o, r.indirect ? &w.doc : nullptr, nm + " after " + after);
    }
}
static void clean(World& w) { for (auto& r : w.roots) if (r.indirect) { std::string s; StringStreamDevice dev(s); charbuff b; r.o->Write(dev, PdfWriteFlags::NoFlateCompress, nullptr, b); CHECK("written-dirty", !r.o->IsDirty(), "an object that was just written is marked as modified"); } }

template <class F> static bool refused(F f) { try { f(); return false; } catch (PdfError&) { return true; } }

// lookups, typed access and reference resolution agree with the contents
static void query(World& w, const Loc& l) {
    const PdfObject& o = *l.o; const V& v = *l.v; bool inDoc = l.r->indirect;
    auto target = [&](const V& x) -> PdfObject* { if (x.k != K::Ref) return nullptr; for (auto& r : w.roots) if (r.indirect && r.o->GetIndirectReference() == PdfReference((uint32_t)x.i, (uint16_t)x.gen)) return r.o; return w.doc.GetObjects().GetObject(PdfReference((uint32_t)x.i, (uint16_t)x.gen)); };
    auto data = o.GetDataType(); static const PdfDataType T[] = { PdfDataType::Null, PdfDataType::Bool, PdfDataType::Number, PdfDataType::Real, PdfDataType::String, PdfDataType::Name, PdfDataType::Array, PdfDataType::Dictionary, PdfDataType::Reference };
    CHECK("type", data == T[(int)v.k], "type at " << l.where);
    CHECK("type-predicates", o.IsNull() == (v.k == K::Null) && o.IsBool() == (v.k == K::Bool) && o.IsNumber() == (v.k == K::Int) && o.IsRealStrict() == (v.k == K::Real) && o.IsNumberOrReal() == v.isNum() && o.IsString() == (v.k == K::Str) && o.IsName() == (v.k == K::Name) && o.IsArray() == (v.k == K::Arr) && o.IsDictionary() == (v.k == K::Dict) && o.IsReference() == (v.k == K::Ref), l.where);
    bool b; int64_t n; double d; PdfString s; PdfName nm; PdfReference rf; const PdfArray* a; const PdfDictionary* dc;
    CHECK_EQ("try-bool", o.TryGetBool(b), v.k == K::Bool, l.where); if (v.k == K::Bool) CHECK("bool", b == v.b && o.GetBool() == v.b, l.where); else CHECK("refuse-bool", refused([&] { o.GetBool(); }), l.where);
    CHECK_EQ("try-number", o.TryGetNumber(n), v.k == K::Int, l.where); if (v.k == K::Int) CHECK("number", n == v.i && o.GetNumber() == v.i, l.where); else CHECK("refuse-number", refused([&] { o.GetNumber(); }), l.where);
    CHECK_EQ("try-lenient", o.TryGetNumberLenient(n), v.isNum(), l.where); if (v.k == K::Int) CHECK_EQ("lenient", n, v.i, l.where); else if (v.k == K::Real && std::fabs(v.d) < 9e18) CHECK_EQ("lenient", n, (int64_t)std::llround(v.d), l.where);
    CHECK_EQ("try-real", o.TryGetReal(d), v.isNum(), l.where); if (v.isNum()) CHECK_EQ("real", d, v.num(), l.where); else CHECK("refuse-real", refused([&] { o.GetReal(); }), l.where);
    CHECK_EQ("try-strict", o.TryGetRealStrict(d), v.k == K::Real, l.where); if (v.k == K::Real) CHECK_EQ("strict", d, v.d, l.where); else CHECK("refuse-strict", refused([&] { o.GetRealStrict(); }), l.where);
    CHECK_EQ("try-string", o.TryGetString(s), v.k == K::Str, l.where); if (v.k == K::Str) CHECK("string", s == v.s && o.GetString() == v.s, l.where); else CHECK("refuse-string", refused([&] { o.GetString(); }), l.where);
    CHECK_EQ("try-name", o.TryGetName(nm), v.k == K::Name, l.where); if (v.k == K::Name) CHECK("name", nm.GetRawData() == v.s && o.GetName() == nm, l.where); else CHECK("refuse-name", refused([&] { o.GetName(); }), l.where);
    CHECK_EQ("try-ref", o.TryGetReference(rf), v.k == K::Ref, l.where); if (v.k == K::Ref) CHECK("ref", rf == PdfReference((uint32_t)v.i, (uint16_t)v.gen) && o.GetReference() == rf, l.where); else CHECK("refuse-ref", refused([&] { o.GetReference(); }), l.where);
    CHECK_EQ("try-array", o.TryGetArray(a), v.k == K::Arr, l.where); CHECK_EQ("try-dict", o.TryGetDictionary(dc), v.k == K::Dict, l.where);
    if (v.k != K::Arr) CHECK("refuse-array", refused([&] { o.GetArray(); }), l.where); if (v.k != K::Dict) CHECK("refuse-dict", refused([&] { o.GetDictionary(); }), l.where);
    auto resolved = [&](const PdfObject* got, const PdfObject* direct, const V& x, const std::string& at) { if (x.k == K::Ref) CHECK("resolve", got == target(x), at << " -> " << x.i); else CHECK("find", got == direct, at); };
    if (v.k == K::Arr) {
        CHECK_EQ("size", a->GetSize(), v.a.size(), l.where); CHECK("size", a->size() == v.a.size() && a->IsEmpty() == v.a.empty(), l.where); auto mut = const_cast<PdfArray*>(a);
        unsigned out = a->GetSize() + w.g.size(3); CHECK("range", refused([&] { (*a)[out]; }) && refused([&] { a->MustFindAt(out); }) && a->FindAt(out) == nullptr && refused([&] { mut->RemoveAt(out); }) && refused([&] { mut->SetAt(out, PdfObject((int64_t)1)); }) && refused([&] { a->GetAtAs<int64_t>(out); }), "out of range access at " << l.where);
        CHECK_EQ("find-default", a->FindAtAs<int64_t>(out, 77), 77, l.where);
        unsigned i = 0; auto it = a->GetIndirectIterator().begin(), end = a->GetIndirectIterator().end(); auto rit = a->rend();
        for (auto& x : *a) {
            auto& mv = v.a[i]; CHECK("iterate", &x == &(*a)[i], l.where); CHECK("reverse", &*--rit == &x, l.where);
            if (mv.k == K::Ref && !inDoc) CHECK("free-ref", refused([&] { a->FindAt(i); }), "a reference outside of a document was resolved"); else resolved(a->FindAt(i), &x, mv, l.where + "[" + std::to_string(i) + "]");
            CHECK("indirect-end", it != end, l.where); auto t = inDoc ? target(mv) : nullptr; CHECK("indirect-iterate", *it == (t ? t : &x), l.where << "[" << i << "]"); ++it;
            if (mv.k == K::Int) { CHECK_EQ("at-as", a->GetAtAs<int64_t>(i), mv.i, l.where); CHECK_EQ("find-as", a->FindAtAs<int64_t>(i, 5), mv.i, l.where); } else CHECK("at-refused", refused([&] { a->GetAtAs<int64_t>(i); }), l.where);
            int64_t z = 9; if (mv.k != K::Ref) CHECK_EQ("try-at-as", a->TryFindAtAs(i, z), mv.k == K::Int, l.where);
            CHECK_EQ("at-safe", a->GetAtAsSafe<bool>(i, true), mv.k == K::Bool ? mv.b : true, l.where);
            i++;
        }
        CHECK("indirect-end", it == end, l.where); if (i) CHECK("front-back", &a->front() == &(*a)[0] && &a->back() == &(*a)[i - 1], l.where);
    }
    if (v.k == K::Dict) {
        CHECK_EQ("dsize", dc->GetSize(), v.m.size() + (dc->GetSize() - v.m.size() <= 3 && l.o == l.r->o && l.r->stream ? dc->GetSize() - v.m.size() : 0), l.where);
        for (auto& p : v.m) { auto x = dc->GetKey(p.first); CHECK("key", x && dc->HasKey(p.first) && x == &dc->MustGetKey(p.first), p.first);
            if (p.second.k == K::Ref && !inDoc) CHECK("free-ref", refused([&] { dc->FindKey(p.first); }), "a reference outside of a document was resolved"); else { resolved(dc->FindKey(p.first), x, p.second, l.where + "/" + p.first);
                auto t = p.second.k == K::Ref ? target(p.second) : x; if (t) CHECK("must-find", &dc->MustFindKey(p.first) == t && (t->IsNull() /* as if absent: the parents are asked */ || dc->FindKeyParent(p.first) == t), p.first); else CHECK("must-find", refused([&] { dc->MustFindKey(p.first); }), p.first); }
            if (p.second.k == K::Int) { CHECK_EQ("key-as", dc->GetKeyAs<int64_t>(p.first, 3), p.second.i, l.where); CHECK_EQ("find-key-as", dc->FindKeyAs<int64_t>(p.first, 3), p.second.i, l.where); }
            if (p.second.k != K::Ref) { CHECK_EQ("key-safe", dc->FindKeyAsSafe<bool>(p.first, true), p.second.k == K::Bool ? p.second.b : true, l.where); int64_t z; CHECK_EQ("try-key-as", dc->TryFindKeyAs(p.first, z), p.second.k == K::Int, l.where); } }
        std::string no = genName(w.g, false) + "?"; CHECK("absent", !dc->HasKey(no) && !dc->GetKey(no) && !dc->FindKey(no) && refused([&] { dc->MustGetKey(no); }) && refused([&] { dc->MustFindKey(no); }) && dc->GetKeyAs<int64_t>(no, 41) == 41 && dc->FindKeyAs<int64_t>(no, 42) == 42 && dc->FindKeyAsSafe<int64_t>(no, 43) == 43, no);
        std::string prev; bool first = true; unsigned c = 0; for (auto& p : dc->GetIndirectIterator()) { CHECK("order", first || prev < p.first.GetRawData(), "keys out of order"); prev = p.first.GetRawData(); first = false; c++; auto x = dc->GetKey(prev); auto m = v.get(prev); auto t = m && inDoc ? target(*m) : nullptr; CHECK("indirect-key", p.second == (t ? t : x), prev); }
        CHECK_EQ("iterated", c, dc->GetSize(), l.where);
    }
}

static void mutate(World& w, unsigned step) {
    pbt::Src& g = w.g; Loc l = locate(w); clean(w); std::vector<V> before; for (auto& r : w.roots) before.push_back(r.v); std::vector<std::string> bdata; for (auto& r : w.roots) bdata.push_back(r.data); std::vector<bool> bst; for (auto& r : w.roots) bst.push_back(r.stream);
    std::vector<Root*> touched{ l.r }; std::string op; bool cont = l.v->k == K::Arr || l.v->k == K::Dict; if (l.nested()) w.nest++;
    bool streamRoot = l.o == l.r->o && l.r->stream;
    auto fresh = [&] { V v = gen(g, gopt()); return v; };
    unsigned k = g.weighted({ 3, 3, 2, 2, 1, cont ? 12u : 0u, 1, 1 });
    switch (k) {
        case 0: { // in-place setters refuse other types
            V n = genScalar(g, gopt()); if (n.k == K::Null) return; op = l.where + ".Set " + show(n); V want = *l.v; bool ok = n.k == l.v->k;
            if (l.v->isNum() && n.isNum()) { ok = true; if (n.k == K::Real && l.v->k == K::Int) { n.d = std::fmod(n.d, 1e15); want.i = std::llround(n.d); } else if (n.k == K::Int && l.v->k == K::Real) want.d = (double)n.i; else want = n; } else if (ok) want = n;
            bool ref = refused([&] { switch (n.k) { case K::Bool: l.o->SetBool(n.b); break; case K::Int: l.o->SetNumber(n.i); break; case K::Real: l.o->SetReal(n.d); break; case K::Str: l.o->SetString(strOf(n.s, n.hex)); break; case K::Name: l.o->SetName(nameOf(n.s)); break; case K::Ref: l.o->SetReference(PdfReference((uint32_t)n.i, (uint16_t)n.gen)); break; default: break; } });
            CHECK_EQ("setter-type", ref, !ok, op); if (ok) *l.v = want; break; }
        case 1: { // copy assignment from any other place, including a part of itself or a container of it
            Loc s = locate(w); if (s.r->stream && s.o == s.r->o && l.nested()) return; op = l.where + " = " + s.where; V tmp = *s.v; bool st = s.o == s.r->o && s.r->stream; std::string data = s.r->data;
            if (l.o == l.r->o) { l.r->stream = st; l.r->data = st ? data : ""; } const PdfObject& src = *s.o; *l.o = src; *l.v = tmp; break; }
        case 2: { V n = fresh(); op = l.where + " = " + show(n); if (l.o == l.r->o) { l.r->stream = false; l.r->data.clear(); } if (g.coin()) *l.o = toObj(n); else { const PdfObject c = toObj(n); *l.o = c; } *l.v = n; break; }
        case 3: { // move assignment; the source is a part of the target, or disjoint (and then refilled)
            Loc s = locate(w); if (inside(l.v, *s.v) && l.v != s.v) return; if (s.r->stream || l.r->stream) return; if (l.v == s.v) return; op = l.where + " = move(" + s.where + ")"; V tmp = *s.v; bool part = inside(s.v, *l.v); touched.push_back(s.r);
            *l.o = std::move(*s.o); *l.v = tmp; if (!part) { V n = genScalar(g, gopt()); *s.o = toObj(n); *s.v = n; } break; }
        case 4: { Loc s = locate(w); if (overlap(l, s) || s.r->stream || l.r->stream) return; op = "swap " + l.where + " " + s.where; touched.push_back(s.r); std::swap(*l.o, *s.o); std::swap(*l.v, *s.v); break; }
        case 5: {
            Loc s = locate(w); bool srcStream = s.o == s.r->o && s.r->stream; if (srcStream) return; V tmp = *s.v; auto val = [&]() { return PdfObject(s.o->GetVariant()); };
            if (l.v->k == K::Arr) {
                PdfArray& a = l.o->GetArray(); auto& m = l.v->a; unsigned n = (unsigned)m.size(), i = n ? g.index(n) : 0;
                switch (g.draw(16)) {
                    case 0: op = l.where + ".Add(" + s.where + ")"; if (srcStream) return; { auto& r = a.Add(*s.o); m.push_back(tmp); CHECK("returned", &r == &a[n], op); } break;
                    case 1: { op = l.where + ".Add(move copy)"; PdfObject c = val(); a.Add(std::move(c)); m.push_back(tmp); break; }
                    case 2: { op = l.where + ".AddIndirect(" + s.where + ")"; bool can = s.o->IsIndirect() && l.r->indirect; bool rf = refused([&] { a.AddIndirect(*s.o); }); CHECK_EQ("add-indirect", rf, !can, op); if (can) m.push_back(V::refTo(s.o->GetIndirectReference().ObjectNumber(), s.o->GetIndirectReference().GenerationNumber())); break; }
                    case 3: { if (srcStream) return; op = l.where + ".AddIndirectSafe(" + s.where + ")"; bool can = s.o->IsIndirect() && l.r->indirect; a.AddIndirectSafe(*s.o); m.push_back(can ? V::refTo(s.o->GetIndirectReference().ObjectNumber()) : tmp); break; }
                    case 4: if (!n || srcStream) return; op = l.where + ".SetAt(" + std::to_string(i) + ", " + s.where + ")"; a.SetAt(i, *s.o); l.v->a[i] = tmp; break;
                    case 5: { if (!n) return; op = l.where + ".SetAt(move)"; V f = fresh(); a.SetAt(i, toObj(f)); m[i] = f; break; }
                    case 6: { if (!n) return; op = l.where + ".SetAtIndirect(" + s.where + ")"; bool can = s.o->IsIndirect() && l.r->indirect; bool rf = refused([&] { a.SetAtIndirect(i, s.o); }); CHECK_EQ("set-indirect", rf, !can, op); if (can) m[i] = V::refTo(s.o->GetIndirectReference().ObjectNumber()); break; }
                    case 7: if (!n || srcStream) return; { op = l.where + ".SetAtIndirectSafe(" + s.where + ")"; bool can = s.o->IsIndirect() && l.r->indirect; a.SetAtIndirectSafe(i, *s.o); m[i] = can ? V::refTo(s.o->GetIndirectReference().ObjectNumber()) : tmp; } break;
                    case 8: if (srcStream) return; { unsigned p = (unsigned)g.draw(n); op = l.where + ".insert(" + std::to_string(p) + ", " + s.where + ")"; auto it = a.insert(a.begin() + p, *s.o); CHECK("insert-pos", it == a.begin() + p, op); m.insert(m.begin() + p, tmp); } break;
                    case 9: { unsigned p = (unsigned)g.draw(n); V f = fresh(); op = l.where + ".insert(" + std::to_string(p) + ", move)"; a.insert(a.begin() + p, toObj(f)); m.insert(m.begin() + p, f); break; }
                    case 10: { unsigned p = (unsigned)g.draw(n), c = g.size(6); op = l.where + ".insert range of " + std::to_string(c); std::vector<PdfObject> v; std::vector<V> mv; v.reserve(c); for (unsigned q = 0; q < c; q++) { V f = fresh(); mv.push_back(f); v.push_back(toObj(f)); } a.insert(a.begin() + p, v.begin(), v.end()); m.insert(m.begin() + p, mv.begin(), mv.end()); break; }
                    case 11: if (!n) return; op = l.where + " erase " + std::to_string(i); if (g.coin()) a.erase(a.begin() + i); else a.RemoveAt(i); m.erase(m.begin() + i); break;
                    case 12: { unsigned p = (unsigned)g.draw(n), q = p + (unsigned)g.draw(n - p); op = l.where + " erase range"; a.erase(a.begin() + p, a.begin() + q); m.erase(m.begin() + p, m.begin() + q); break; }
                    case 13: if (!g.chance(1, 3)) return; op = l.where + ".Clear"; a.Clear(); m.clear(); break;
                    case 14: { unsigned c = g.size(n + 6); V f = genScalar(g, gopt()); op = l.where + ".Resize(" + std::to_string(c) + ")"; if (g.chance(1, 3)) { a.resize(c); m.resize(c, V::dict()); } else if (g.coin()) { a.Resize(c); m.resize(c, V::dict()); } else { a.Resize(c, toObj(f)); m.resize(c, f); } break; }
                    case 15: op = l.where + ".Reserve"; if (g.coin()) a.Reserve(n + g.size(9)); else a.reserve(n + g.size(9)); break;
                    default: { if (s.v->k != K::Arr) return; bool mv = g.coin() && !overlap(l, s); op = l.where + " array = " + (mv ? "move of copy " : "") + s.where; if (mv) { PdfArray c = s.o->GetArray(); a = std::move(c); } else a = s.o->GetArray(); *l.v = tmp; }
                }
            } else {
                PdfDictionary& d = l.o->GetDictionary(); auto& m = l.v->m; std::string key = !m.empty() && g.coin() ? std::next(m.begin(), g.index(m.size()))->first : genName(g, false); bool can = s.o->IsIndirect() && l.r->indirect; if (streamRoot && (key == "Length" || key == "Filter" || key == "DecodeParms")) return;
                switch (g.draw(7)) {
                    case 0: if (srcStream) return; op = l.where + ".AddKey(" + key + ", " + s.where + ")"; { auto& r = d.AddKey(nameOf(key), *s.o); l.v->m[key] = tmp; CHECK("returned", &r == d.GetKey(key), op); } break;
                    case 1: { V f = fresh(); op = l.where + ".AddKey(" + key + ", move)"; d.AddKey(nameOf(key), toObj(f)); m[key] = f; break; }
                    case 2: { op = l.where + ".AddKeyIndirect(" + key + ", " + s.where + ")"; bool rf = refused([&] { d.AddKeyIndirect(nameOf(key), *s.o); }); CHECK_EQ("add-indirect", rf, !can, op); if (can) m[key] = V::refTo(s.o->GetIndirectReference().ObjectNumber()); break; }
                    case 3: if (srcStream) return; op = l.where + ".AddKeyIndirectSafe(" + key + ", " + s.where + ")"; d.AddKeyIndirectSafe(nameOf(key), *s.o); m[key] = can ? V::refTo(s.o->GetIndirectReference().ObjectNumber()) : tmp; break;
                    case 4: { op = l.where + ".RemoveKey(" + key + ")"; bool had = m.count(key) != 0; CHECK_EQ("removed", d.RemoveKey(key), had, op); m.erase(key); break; }
                    case 5: if (streamRoot || !g.chance(1, 3)) return; op = l.where + ".Clear"; d.Clear(); m.clear(); break;
                    case 6: { if (s.v->k != K::Dict || streamRoot || srcStream) return; bool mv = g.coin() && !overlap(l, s); op = l.where + " dict = " + (mv ? "move of copy " : "") + s.where; if (mv) { PdfDictionary c = s.o->GetDictionary(); d = std::move(c); } else d = s.o->GetDictionary(); *l.v = tmp; break; }
                    default: { if (m.empty()) return; auto it = std::next(m.begin(), g.index(m.size())); V f = fresh(); op = l.where + " iterate and assign /" + it->first; for (auto& x : d) if (x.first == it->first) x.second = toObj(f); it->second = f; break; }
                }
            }
            break; }
        case 6: { // a new free-standing copy
            if (w.roots.size() > 12) return; op = "copy of " + l.where; std::unique_ptr<PdfObject> n(g.coin() ? new PdfObject(*l.o) : new PdfObject(l.o->GetVariant())); bool st = n->HasStream(); CHECK("copy-stream", !st || streamRoot, op);
            w.roots.reserve(16); w.roots.push_back({ n.get(), *l.v, false, st, st ? l.r->data : "" }); if (st) { auto& m = n->GetDictionary(); (void)m; } if (!st && streamRoot) for (auto key : { "Length", "Filter", "DecodeParms" }) n->GetDictionary().RemoveKey(key); w.free_.push_back(std::move(n)); break; }
        default: { // stream contents
            if (l.o != l.r->o || l.v->k != K::Dict) return; op = l.where + " stream"; std::string d = g.bytes(60); l.r->stream = true; l.r->data = d; l.o->GetOrCreateStream().SetData(bufferview(d.data(), d.size())); l.v->m.erase("Length"); l.v->m.erase("Filter"); l.v->m.erase("DecodeParms"); }
    }
    w.log += op + "\n"; g.trace(op); g.label("op" + std::to_string(k));
    for (size_t i = 0; i < before.size(); i++) {
        auto& r = w.roots[i]; if (!r.indirect) continue; bool changed = !same(before[i], r.v) || r.data != bdata[i] || r.stream != bst[i];
        if (changed) CHECK("not-dirty", r.o->IsDirty(), "obj" << i << " changed by '" << op << "' but is not marked as modified");
        else if (std::find(touched.begin(), touched.end(), &r) == touched.end()) CHECK("wrongly-dirty", !r.o->IsDirty(), "obj" << i << " marked as modified by '" << op << "'");
    }
    (void)step;
}

PROP(C04, histories, 20000, 40000, 20) {
    World w(g); w.roots.reserve(16); unsigned n = 3 + g.size(4);
    for (unsigned i = 0; i < n; i++) { V v = gen(g, gopt(3)); if (i % 3 == 2) { w.free_.emplace_back(new PdfObject(toObj(v))); w.roots.push_back({ w.free_.back().get(), v, false }); } else { auto& o = w.doc.GetObjects().CreateObject(toObj(v).GetVariant()); w.roots.push_back({ &o, v, true }); } g.trace(w.roots.back().indirect ? "obj" : "free", i, " = ", show(v)); }
    checkAll(w, "construction"); unsigned steps = 1 + g.size(30);
    for (unsigned s = 0; s < steps; s++) {
        mutate(w, s); checkAll(w, w.log.empty() ? "nothing" : w.log.substr(w.log.rfind('\n', w.log.size() - 2) + 1));
        if (g.chance(1, 3)) { Loc l = locate(w); query(w, l); }
        if (g.chance(1, 4)) { Loc a = locate(w), b = locate(w); bool e; if (a.o->IsIndirect()) e = a.o == b.o; else e = same(*a.v, *b.v); if ((a.o == a.r->o && a.r->stream) || (b.o == b.r->o && b.r->stream)) continue;
            CHECK_EQ("equal", *a.o == *b.o, e, a.where << " " << b.where); CHECK_EQ("unequal", *a.o != *b.o, !e, a.where << " " << b.where); CHECK_EQ("var-equal", a.o->GetVariant() == b.o->GetVariant(), same(*a.v, *b.v), a.where << " " << b.where); CHECK_EQ("var-unequal", *a.o != b.o->GetVariant(), !same(*a.v, *b.v), a.where << " " << b.where); }
    }
    if (steps >= 5 && w.nest) g.nontrivial();
}
// equality is structural, symmetric, and inequality is its negation
PROP(C04, equality, 60000, 300000, 10) {
    V a = gen(g, gopt(3)), b = a;
    if (g.coin()) { // one change somewhere
        V* p = &b; while ((p->k == K::Arr && !p->a.empty()) || (p->k == K::Dict && !p->m.empty())) { if (g.chance(1, 5)) break; p = p->k == K::Arr ? &p->a[g.index(p->a.size())] : &std::next(p->m.begin(), g.index(p->m.size()))->second; }
        switch (g.draw(3)) { case 0: *p = gen(g, gopt(1)); break; case 1: if (p->k == K::Arr) { if (!p->a.empty() && g.coin()) p->a.pop_back(); else p->a.push_back(V::integer(1)); } else if (p->k == K::Dict) { if (!p->m.empty() && g.coin()) p->m.erase(p->m.begin()); else p->m["Zz"] = V::null(); } else *p = V::null(); break;
            case 2: if (p->k == K::Int) *p = V::real((double)p->i); else if (p->k == K::Str) p->hex = !p->hex; else if (p->k == K::Name) *p = V::str(p->s); else *p = V::boolean(false); break; default: if (p->k == K::Int) p->i ^= 1; else if (p->k == K::Real) p->d += 0.5; else if (p->k == K::Str || p->k == K::Name) p->s += "x"; else if (p->k == K::Bool) p->b = !p->b; else if (p->k == K::Ref) p->i ^= 1; } }
    g.trace(show(a)); g.trace(show(b)); if (a.k == K::Arr || a.k == K::Dict) g.nontrivial(); bool e = same(a, b); g.label(e ? "equal" : "different");
    PdfObject x = toObj(a), y = toObj(b); CHECK_EQ("eq", x == y, e, ""); CHECK_EQ("eq-sym", y == x, e, ""); CHECK_EQ("neq", x != y, !e, ""); CHECK_EQ("neq-sym", y != x, !e, ""); CHECK("refl", x == x && !(x != x), "");
    CHECK_EQ("veq", x.GetVariant() == y.GetVariant(), e, ""); CHECK_EQ("vneq", x.GetVariant() != y.GetVariant(), !e, ""); CHECK_EQ("mixed", x == y.GetVariant(), e, ""); CHECK_EQ("mixed-neq", x != y.GetVariant(), !e, "");
    if (a.k == K::Arr && b.k == K::Arr) { CHECK_EQ("aeq", x.GetArray() == y.GetArray(), e, ""); CHECK_EQ("aneq", x.GetArray() != y.GetArray(), !e, ""); }
    if (a.k == K::Dict && b.k == K::Dict) { CHECK_EQ("deq", x.GetDictionary() == y.GetDictionary(), e, ""); CHECK_EQ("dneq", x.GetDictionary() != y.GetDictionary(), !e, ""); CHECK("dself", !(x.GetDictionary() != x.GetDictionary()), ""); }
    PdfVariant v = x.GetVariant(), c = v; const PdfVariant& self = v; v = self; CHECK("self-assign", v == c, "variant changed by self-assignment"); PdfVariant m = std::move(c); CHECK("moved", m == v && c.IsNull(), "move"); c = m; CHECK("reuse", c == m, "assignment to a moved-from variant"); v = std::move(v); auto d = diff(fromVar(m), a, DiffOpt{ 0, true, false }); CHECK("copy", d.empty(), d);
}
// inherited lookup follows /Parent through references
PROP(C04, inherit, 6000, 40000, 10) {
    PdfMemDocument doc; unsigned depth = 1 + g.size(8); std::vector<PdfObject*> os; std::vector<std::map<std::string, int64_t>> m(depth); static const std::vector<std::string> keys = { "A", "B", "MediaBox", "C" }; g.nontrivial();
    for (unsigned i = 0; i < depth; i++) { auto& o = doc.GetObjects().CreateDictionaryObject(); for (auto& k : keys) if (g.chance(1, 3)) { int64_t x = (int64_t)(i * 100 + g.draw(50)); m[i][k] = x; if (g.coin()) o.GetDictionary().AddKey(k, PdfObject(x)); else { auto& t = doc.GetObjects().CreateObject(PdfVariant(x)); o.GetDictionary().AddKey(k, t.GetIndirectReference()); } } if (i) o.GetDictionary().AddKey("Parent", os[i - 1]->GetIndirectReference()); os.push_back(&o); }
    for (unsigned i = 0; i < depth; i++) for (auto& k : keys) { int64_t want = -1; for (int j = (int)i; j >= 0 && want < 0; j--) if (m[j].count(k)) want = m[j][k]; auto& d = os[i]->GetDictionary(); auto p = d.FindKeyParent(k); CHECK_EQ("inherited", p ? p->GetNumber() : -1, want, k << " at depth " << i); CHECK_EQ("inherited-as", d.FindKeyParentAs<int64_t>(k, -1), want, k); CHECK_EQ("inherited-safe", d.FindKeyParentAsSafe<int64_t>(k, -1), want, k); CHECK_EQ("own", d.FindKeyAs<int64_t>(k, -1), m[i].count(k) ? m[i][k] : -1, k); }
}
