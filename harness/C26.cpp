// C26: rectangles, matrices and page geometry obey their algebra.
#include "refdoc.h"
using namespace mm; using namespace ref; using namespace refmm; using namespace refdoc;
static struct Init { Init() {
    pbt::g_rule = "the rectangles are not empty, or the matrix is neither the identity nor a pure translation";
    pbt::g_assumptions = "rectangles are transformed by matrices that keep the axes (scales, translations, quarter turns)\nthe all zero rectangle does not restrict an intersection\nscale and rotation are taken out of a rotation followed by a positive scale, the order the library documents by its formulas\nstandard page sizes are within one point of their definition";
} } init;
static double dy(pbt::Src& g) { switch (g.draw(3)) { case 0: return (double)g.range(-20, 20); case 1: return (double)g.range(-4000, 4000) / 4; case 2: return (double)g.range(-1000000, 1000000) / 64; default: return (double)g.range(-100, 1000); } }
static bool near(double a, double b, double s = 1) { return std::fabs(a - b) <= 1e-9 * std::max({ 1.0, std::fabs(a), std::fabs(b), s }); }
typedef std::array<double, 6> Mx;
static Mx mul(const Mx& a, const Mx& b) { return { a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3], a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5] }; }
static Mx arr(const Matrix& m) { Mx r; for (unsigned i = 0; i < 6; i++) r[i] = m[i]; return r; }
static Matrix toM(const Mx& m) { return Matrix::FromCoefficients(m[0], m[1], m[2], m[3], m[4], m[5]); }
static std::string show(const Mx& m) { std::ostringstream s; s.precision(12); for (auto x : m) s << x << " "; return s.str(); }
static bool same(const Mx& a, const Mx& b) { double s = 1; for (int i = 0; i < 6; i++) s = std::max({ s, std::fabs(a[i]), std::fabs(b[i]) }); for (int i = 0; i < 6; i++) if (!near(a[i], b[i], s)) return false; return true; }
static std::string show(const PdfRect& r) { std::ostringstream s; s.precision(12); s << "[" << r.GetLeft() << " " << r.GetBottom() << " " << r.GetRight() << " " << r.GetTop() << "]"; return s.str(); }
static PdfRect genRect(pbt::Src& g) { return PdfRect(dy(g), dy(g), std::fabs(dy(g)), std::fabs(dy(g))); }
static bool eq(const PdfRect& a, const PdfRect& b) { return near(a.GetLeft(), b.GetLeft(), 1e3) && near(a.GetBottom(), b.GetBottom(), 1e3) && near(a.GetRight(), b.GetRight(), 1e3) && near(a.GetTop(), b.GetTop(), 1e3); }
PROP(C26, rect, 40000, 3000000, 5) {
    double x1 = dy(g), y1 = dy(g), x2 = g.chance(1, 8) ? x1 : dy(g), y2 = g.chance(1, 8) ? y1 : dy(g), l = std::min(x1, x2), b = std::min(y1, y2), r = std::max(x1, x2), t = std::max(y1, y2); if (r > l && t > b) g.nontrivial(); g.trace("corners ", x1, " ", y1, " ", x2, " ", y2);
    auto is = [&](const char* tag, const PdfRect& q) { CHECK(tag, q.GetLeft() == l && q.GetBottom() == b && q.GetRight() == r && q.GetTop() == t && q.GetWidth() == r - l && q.GetHeight() == t - b, show(q) << " from " << x1 << " " << y1 << " " << x2 << " " << y2); };
    PdfRect q = PdfRect::FromCorners(x1, y1, x2, y2); is("corners", q); PdfArray a; a.Add(PdfObject(7.0)); auto num = [&](double v) { PdfObject o = v == std::floor(v) && g.coin() ? PdfObject((int64_t)v) : PdfObject(v); return o; };
    PdfArray in; in.Add(num(x1)); in.Add(num(y1)); in.Add(num(x2)); in.Add(num(y2)); is("array", PdfRect(in)); PdfRect f(1, 2, 3, 4); f.FromArray(in); is("from-array", f); q.ToArray(a); CHECK_EQ("to-array-size", a.GetSize(), 4u, "entries"); CHECK("to-array", a[0].GetReal() == l && a[1].GetReal() == b && a[2].GetReal() == r && a[3].GetReal() == t, "ToArray of " << show(q)); PdfRect again(a); is("round-trip", again);
    if (g.chance(1, 4)) { PdfMemDocument doc; auto& holder = doc.GetObjects().CreateArrayObject(); for (double v : { x1, y1, x2, y2 }) if (g.coin()) holder.GetArray().Add(doc.GetObjects().CreateObject(num(v)).GetIndirectReference()); else holder.GetArray().Add(num(v)); is("indirect", PdfRect(holder.GetArray())); g.label("indirect coordinates"); }
    PdfArray bad; unsigned n = (unsigned)g.draw(7); for (unsigned i = 0; i < n; i++) bad.Add(PdfObject((int64_t)i)); bool threw = false; try { PdfRect x(bad); } catch (PdfError& e) { threw = e.GetError() == PdfErrorCode::ValueOutOfRange; } CHECK_EQ("size", threw, n != 4, "array of " << n);
    { std::string ts = q.ToString(); Lexer lx(ts); V v = lx.value(); CHECK("to-string", v.k == K::Arr && v.a.size() == 4 && std::fabs(v.a[0].num() - l) < 1e-5 && std::fabs(v.a[1].num() - b) < 1e-5 && std::fabs(v.a[2].num() - r) < 1e-5 && std::fabs(v.a[3].num() - t) < 1e-5, "ToString " << q.ToString() << " of " << show(q)); }
    PdfRect o = g.chance(1, 3) ? PdfRect(l + std::fabs(dy(g)) * (g.coin() ? 1 : -1), b + dy(g), std::fabs(dy(g)), std::fabs(dy(g))) : genRect(g); bool zero = o.GetLeft() == 0 && o.GetBottom() == 0 && o.GetWidth() == 0 && o.GetHeight() == 0; PdfRect c = q; c.Intersect(o);
    auto in1 = [](const PdfRect& k, double x, double y) { return x >= k.GetLeft() && x <= k.GetRight() && y >= k.GetBottom() && y <= k.GetTop(); };
    std::vector<double> xs{ l, r, (l + r) / 2, o.GetLeft(), o.GetRight(), dy(g) }, ys{ b, t, (b + t) / 2, o.GetBottom(), o.GetTop(), dy(g) };
    for (double x : xs) for (double y : ys) { CHECK("contains", q.Contains(x, y) == (x >= l && x <= r && y >= b && y <= t), show(q) << " contains " << x << " " << y); if (!zero) CHECK("intersect", c.Contains(x, y) == (in1(q, x, y) && in1(o, x, y)), show(q) << " and " << show(o) << " intersect in " << show(c) << ", at " << x << " " << y); }
    if (!zero && std::max(l, o.GetLeft()) <= std::min(r, o.GetRight()) && std::max(b, o.GetBottom()) <= std::min(t, o.GetTop())) { g.label("overlapping rectangles"); CHECK("intersect-exact", c.GetLeft() == std::max(l, o.GetLeft()) && c.GetBottom() == std::max(b, o.GetBottom()) && c.GetRight() == std::min(r, o.GetRight()) && c.GetTop() == std::min(t, o.GetTop()), show(q) << " and " << show(o) << " intersect in " << show(c)); PdfRect d = o; if (!(l == 0 && b == 0 && r == 0 && t == 0)) { d.Intersect(q); CHECK("intersect-commutes", eq(c, d), show(c) << " and " << show(d)); } PdfRect e = c; e.Intersect(q); CHECK("intersect-idempotent", (l == 0 && b == 0 && r == 0 && t == 0) || eq(c, e), show(c) << " and " << show(e)); }
    // transformed by a matrix that keeps the axes
    double sx = (double)g.range(-16, 16) / 4, sy = (double)g.range(-16, 16) / 4, tx = dy(g), ty = dy(g); Mx m = g.coin() ? Mx{ sx, 0, 0, sy, tx, ty } : Mx{ 0, sx, sy, 0, tx, ty }; PdfRect w = q * toM(m); double px[2], py[2]; px[0] = l * m[0] + b * m[2] + m[4]; py[0] = l * m[1] + b * m[3] + m[5]; px[1] = r * m[0] + t * m[2] + m[4]; py[1] = r * m[1] + t * m[3] + m[5];
    CHECK("transform", near(w.GetLeft(), std::min(px[0], px[1]), 1e4) && near(w.GetRight(), std::max(px[0], px[1]), 1e4) && near(w.GetBottom(), std::min(py[0], py[1]), 1e4) && near(w.GetTop(), std::max(py[0], py[1]), 1e4), show(q) << " times " << show(m) << " is " << show(w));
}
static Mx genMx(pbt::Src& g, bool invertible = false) { for (;;) { Mx m; switch (g.draw(5)) { case 0: m = { 1, 0, 0, 1, 0, 0 }; break; case 1: m = { 1, 0, 0, 1, dy(g), dy(g) }; break; case 2: m = { (double)g.range(-20, 20) / 4, 0, 0, (double)g.range(-20, 20) / 4, dy(g), dy(g) }; break; case 3: { double t = (double)g.range(-720, 720) * M_PI / 180; m = { cos(t), sin(t), -sin(t), cos(t), dy(g), dy(g) }; break; } default: for (auto& x : m) x = dy(g) / 8; } double det = m[0] * m[3] - m[1] * m[2]; if (invertible && std::fabs(det) < 1e-3) { m[0] += 3; m[3] += 5; if (std::fabs(m[0] * m[3] - m[1] * m[2]) < 1e-3) continue; } return m; } }
PROP(C26, matrix, 40000, 3000000, 5) {
    Mx a = genMx(g), b = genMx(g), c = genMx(g); g.trace("a ", show(a), " b ", show(b)); if (a[0] != 1 || a[1] != 0 || a[2] != 0 || a[3] != 1) g.nontrivial(); Matrix A = toM(a), B = toM(b), C = toM(c), I; double tx = dy(g), ty = dy(g), ang = (double)g.range(-7200, 7200) * M_PI / 1800;
    CHECK("coefficients", arr(A) == a, show(arr(A)) << " from " << show(a)); CHECK("product", same(arr(A * B), mul(a, b)), show(a) << " times " << show(b) << " is " << show(arr(A * B))); CHECK("identity", arr(A * I) == a && arr(I * A) == a, "product with the identity"); { Mx l = arr((A * B) * C), r = arr(A * (B * C)); double s = 0; for (int i = 0; i < 6; i++) s = std::max({ s, std::fabs(a[i]), std::fabs(b[i]), std::fabs(c[i]) }); bool ok = true; for (int i = 0; i < 6; i++) ok = ok && std::fabs(l[i] - r[i]) <= 1e-9 * std::max(1.0, s * s * s); CHECK("associative", ok, show(l) << " and " << show(r)); }
    CHECK("equal", (A == B) == (a == b) && (A != B) == (a != b) && A == A && !(A != A), "comparison of " << show(a) << " and " << show(b)); { unsigned k = (unsigned)g.draw(5); Mx d = a; d[k] += 0.5; Matrix D = toM(d); CHECK("different", !(A == D) && A != D, "matrices that differ in element " << k << " are equal"); }
    Matrix T = Matrix::CreateTranslation(Vector2(tx, ty)), S = Matrix::CreateScale(Vector2(tx, ty)), R = Matrix::CreateRotation(ang); CHECK("translation", arr(T) == (Mx{ 1, 0, 0, 1, tx, ty }), show(arr(T))); CHECK("scale", arr(S) == (Mx{ tx, 0, 0, ty, 0, 0 }), show(arr(S))); CHECK("rotation", same(arr(R), Mx{ cos(ang), sin(ang), -sin(ang), cos(ang), 0, 0 }), show(arr(R)));
    Mx want = mul({ 1, 0, 0, 1, tx, ty }, a); CHECK("translated", same(arr(A.Translated(Vector2(tx, ty))), want) && arr(A) == a, show(a) << " translated by " << tx << " " << ty << " is " << show(arr(A.Translated(Vector2(tx, ty))))); { Matrix X = A; X.Translate(Vector2(tx, ty)); CHECK("translate", same(arr(X), want), show(arr(X)) << " expected " << show(want)); X = A; X.Apply<Tx>(tx); CHECK("apply-x", same(arr(X), mul({ 1, 0, 0, 1, tx, 0 }, a)), show(a) << " after Apply<Tx>(" << tx << ") is " << show(arr(X))); X.Apply<Ty>(ty); CHECK("apply-y", same(arr(X), want), show(a) << " after Apply<Ty> is " << show(arr(X))); X.Set<Tx>(3); X.Set<Ty>(-4); CHECK("set", X[4] == 3 && X[5] == -4 && X.Get<Tx>() == 3 && X.Get<Ty>() == -4 && X[0] == a[0] && X[1] == a[1] && X[2] == a[2] && X[3] == a[3], show(arr(X))); }
    { Vector2 cen(dy(g), dy(g)); Matrix Q = Matrix::CreateRotation(cen, ang); CHECK("rotation-center", same(arr(Q), mul(mul({ 1, 0, 0, 1, -cen.X, -cen.Y }, { cos(ang), sin(ang), -sin(ang), cos(ang), 0, 0 }), { 1, 0, 0, 1, cen.X, cen.Y })), "rotation by " << ang << " about " << cen.X << " " << cen.Y << " is " << show(arr(Q))); }
    { double raw[6]; A.ToArray(raw); for (int i = 0; i < 6; i++) CHECK("to-array", raw[i] == a[i], "element " << i); CHECK("from-array", Matrix::FromArray(raw) == A, "FromArray"); PdfArray p; p.Add(PdfObject((int64_t)1)); A.ToArray(p); CHECK("pdf-array", p.GetSize() == 6 && Matrix::FromArray(p) == A, "through an array"); }
    { Vector2 v(dy(g), dy(g)), w(dy(g), dy(g)), p = v * A; CHECK("vector", near(p.X, v.X * a[0] + v.Y * a[2] + a[4], 1e4) && near(p.Y, v.X * a[1] + v.Y * a[3] + a[5], 1e4), "vector times matrix"); auto s = v + w, d = v - w; CHECK("vector-sum", s.X == v.X + w.X && s.Y == v.Y + w.Y && d.X == v.X - w.X && d.Y == v.Y - w.Y, "sum of vectors"); auto u = v; u += w; CHECK("vector-sum", u.X == s.X && u.Y == s.Y, "+="); u = v; u -= w; CHECK("vector-sum", u.X == d.X && u.Y == d.Y, "-="); CHECK("length", near(v.GetLength(), std::hypot(v.X, v.Y)) && near(v.GetSquaredLength(), v.X * v.X + v.Y * v.Y, 1e6), "length"); }
    { double sx = (double)g.range(1, 40) / 8, sy = (double)g.range(1, 40) / 8; Mx rs = mul({ cos(ang), sin(ang), -sin(ang), cos(ang), 0, 0 }, { sx, 0, 0, sy, tx, ty }); Matrix M = toM(rs); auto s = M.GetScaleVector(); CHECK("get-scale", near(s.X, sx) && near(s.Y, sy), "scale of " << show(rs) << " is " << s.X << " " << s.Y << " expected " << sx << " " << sy); CHECK("get-rotation", same(arr(M.GetRotation()), { cos(ang), sin(ang), -sin(ang), cos(ang), 0, 0 }), "rotation of " << show(rs)); auto t = M.GetTranslationVector(); CHECK("get-translation", t.X == rs[4] && t.Y == rs[5], "translation"); CHECK("scaling-rotation", arr(M.GetScalingRotation()) == (Mx{ rs[0], rs[1], rs[2], rs[3], 0, 0 }), "scaling and rotation"); }
}
PROP(C26, frame, 20000, 1000000, 5) {
    PdfRect r = genRect(g); bool quarter = g.chance(2, 3); double ang = quarter ? (double)g.range(-8, 8) * M_PI / 2 : (double)g.range(-3600, 3600) * M_PI / 1800; g.trace(show(r), " angle ", ang); if (r.GetWidth() > 0 && r.GetHeight() > 0 && ang != 0) g.nontrivial();
    Mx f = arr(GetFrameRotationTransform(r, ang)), i = arr(GetFrameRotationTransformInverse(r, ang)); double s = 1 + std::fabs(r.GetLeft()) + std::fabs(r.GetBottom()) + r.GetWidth() + r.GetHeight(); Mx p = mul(f, i); bool ok = true; Mx id{ 1, 0, 0, 1, 0, 0 }; for (int k = 0; k < 6; k++) ok = ok && std::fabs(p[k] - id[k]) < 1e-9 * s; CHECK("frame-inverse", ok, "the inverse of " << show(f) << " is " << show(i));
    CHECK("frame-rotation", near(f[0], cos(ang)) && near(f[1], sin(ang)) && near(f[2], -sin(ang)) && near(f[3], cos(ang)), "frame rotation " << show(f) << " by " << ang);
    if (quarter) { PdfRect q = r * toM(f); bool turn = std::fabs(sin(ang)) > 0.5; CHECK("frame", std::fabs(q.GetLeft() - r.GetLeft()) < 1e-9 * s && std::fabs(q.GetBottom() - r.GetBottom()) < 1e-9 * s && std::fabs(q.GetWidth() - (turn ? r.GetHeight() : r.GetWidth())) < 1e-9 * s && std::fabs(q.GetHeight() - (turn ? r.GetWidth() : r.GetHeight())) < 1e-9 * s, show(r) << " turned by " << ang << " is " << show(q)); g.label("quarter turns"); }
}
PROP(C26, pages, 3000, 100000, 10) {   // geometry kept by documents
    PdfMemDocument doc; std::vector<PdfRect> boxes, forms; std::vector<int> rots; std::vector<PdfReference> refs; unsigned n = 1 + (unsigned)g.draw(3);
    static const struct { PdfPageSize s; double w, h; } STD[] = { { PdfPageSize::A0, 2383.94, 3370.39 }, { PdfPageSize::A1, 1683.78, 2383.94 }, { PdfPageSize::A2, 1190.55, 1683.78 }, { PdfPageSize::A3, 841.89, 1190.55 }, { PdfPageSize::A4, 595.28, 841.89 }, { PdfPageSize::A5, 419.53, 595.28 }, { PdfPageSize::A6, 297.64, 419.53 }, { PdfPageSize::Letter, 612, 792 }, { PdfPageSize::Legal, 612, 1008 }, { PdfPageSize::Tabloid, 792, 1224 } };
    for (unsigned i = 0; i < n; i++) { PdfRect r; if (g.chance(1, 3)) { auto& s = STD[g.draw(9)]; bool land = g.coin(); r = PdfPage::CreateStandardPageSize(s.s, land); double w = land ? s.h : s.w, h = land ? s.w : s.h; CHECK("standard-size", r.GetLeft() == 0 && r.GetBottom() == 0 && std::fabs(r.GetWidth() - w) < 1 && std::fabs(r.GetHeight() - h) < 1, "size " << (int)s.s << (land ? " landscape" : "") << " is " << show(r)); g.label("standard sizes"); } else { r = genRect(g); if (r.GetWidth() > 0 && r.GetHeight() > 0) g.nontrivial(); }
        auto& p = doc.GetPages().CreatePage(r); CHECK("page-size", eq(p.GetMediaBox(), r) && eq(p.GetRect(), r) && eq(p.GetCropBox(), r), "boxes of a new page are " << show(p.GetMediaBox()) << show(p.GetCropBox()) << " expected " << show(r)); int rot = (int)g.draw(3) * 90; p.SetRotationRaw(rot); double t = 0; bool has = p.HasRotation(t); CHECK_EQ("page-rotation", has, rot != 0, "rotation " << rot); boxes.push_back(r); rots.push_back(rot);
        if (has) { Mx f = arr(GetFrameRotationTransform(p.GetRect(), t)); double x = r.GetLeft() + r.GetWidth() / 4, y = r.GetBottom() + r.GetHeight() / 8, u = x - r.GetLeft(), v = y - r.GetBottom(), wx = rot == 90 ? v : rot == 180 ? r.GetWidth() - u : r.GetHeight() - v, wy = rot == 90 ? r.GetWidth() - u : rot == 180 ? r.GetHeight() - v : u; double gx = x * f[0] + y * f[2] + f[4] - r.GetLeft(), gy = x * f[1] + y * f[3] + f[5] - r.GetBottom(); CHECK("page-turned", std::fabs(gx - wx) < 1e-6 && std::fabs(gy - wy) < 1e-6, "a point at " << u << " " << v << " of a page " << show(r) << " turned clockwise by " << rot << " is shown at " << gx << " " << gy << " expected " << wx << " " << wy); }
        PdfRect b = genRect(g); auto x = doc.CreateXObjectForm(b); CHECK("form-box", eq(x->GetRect(), b), "box of a form " << show(x->GetRect()) << " expected " << show(b)); { static const char* K[] = { "CropBox", "TrimBox", "BleedBox", "ArtBox" }; std::optional<PdfRect> set[4]; for (int k = 0; k < 4; k++) if (g.chance(1, 3)) { set[k] = genRect(g); PdfArray a; set[k]->ToArray(a); p.GetDictionary().AddKey(PdfName(K[k]), a); } PdfRect crop = set[0] ? *set[0] : r, got[4] = { p.GetCropBox(), p.GetTrimBox(), p.GetBleedBox(), p.GetArtBox() }; for (int k = 0; k < 4; k++) { PdfRect want = set[k] ? *set[k] : crop; CHECK("page-box", eq(got[k], want), K[k] << " of a page is " << show(got[k]) << " expected " << show(want)); if (set[0] && !set[k]) g.label("boxes that default to the crop box"); } for (auto k : K) p.GetDictionary().RemoveKey(k); }
        refs.push_back(x->GetObject().GetIndirectReference()); forms.push_back(b); p.GetDictionary().AddKey("VfKeep", x->GetObject().GetIndirectReference()); }
    std::string out = save(doc, genSave(g)); auto again = loadMm(out, (unsigned)g.draw(2)); CHECK_EQ("page-count", again->GetPages().GetCount(), n, "pages"); for (unsigned i = 0; i < n; i++) { auto& p = again->GetPages().GetPageAt(i); auto close = [](const PdfRect& a, const PdfRect& b) { return std::fabs(a.GetLeft() - b.GetLeft()) < 2e-5 && std::fabs(a.GetBottom() - b.GetBottom()) < 2e-5 && std::fabs(a.GetRight() - b.GetRight()) < 2e-5 && std::fabs(a.GetTop() - b.GetTop()) < 2e-5; }; CHECK("reloaded-box", close(p.GetMediaBox(), boxes[i]) && close(p.GetRect(), boxes[i]), "page " << show(p.GetMediaBox()) << " expected " << show(boxes[i])); CHECK_EQ("reloaded-rotation", p.GetRotationRaw(), rots[i], "page " << i); std::unique_ptr<PdfXObject> x; auto& o = p.GetDictionary().MustFindKey("VfKeep"); auto& a = o.GetDictionary().MustFindKey("BBox").GetArray(); CHECK("reloaded-form", close(PdfRect(a), forms[i]), "form box " << show(PdfRect(a)) << " expected " << show(forms[i])); }
}
