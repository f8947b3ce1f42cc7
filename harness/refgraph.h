// Comparison of page graphs of two documents up to the numbering of their objects.
#pragma once
#include "refdoc.h"
namespace refgraph {
using namespace ref; typedef std::map<int64_t, refmm::Snap> Objs;
// pages of a document in order (numbers of the page objects)
std::vector<int64_t> pages(const Objs& s, int64_t root);
// value of an inheritable attribute, following /Parent
const V* inherited(const Objs& s, int64_t page, const std::string& key, int64_t* holder = nullptr);
const V& deref(const Objs& s, const V& v);
// "" when what is reachable from page `p` of `a` and page `q` of `b` is the same up to the numbers. Page tree nodes and outlines are not entered.
struct Iso { const Objs& a; const Objs& b; double tol; std::map<int64_t, int64_t> ab, ba; unsigned objects = 0, streams = 0; const std::set<int64_t>* live = nullptr; // pages of b still in its tree
    Iso(const Objs& a, const Objs& b, double tol = 5.1e-7) : a(a), b(b), tol(tol) {}
    std::string value(const V& x, const V& y, const std::string& path, unsigned depth = 0);
    std::string object(int64_t x, int64_t y, const std::string& path);
    std::string page(int64_t x, int64_t y, const std::string& path);
private: std::vector<std::array<int64_t, 2>> todo; std::vector<std::string> paths; std::string pair(int64_t x, int64_t y, const std::string& path); std::string drain(); std::string body(int64_t x, int64_t y, const std::string& path); };
Objs ofStrict(const Doc& d);
// the outline as nested titles "title(child child)", checking the links; "" and err set on inconsistency
std::string outline(const Objs& s, int64_t root, std::string& err);
}
