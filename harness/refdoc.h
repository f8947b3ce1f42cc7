// Random document models shared by the document level harnesses.
#pragma once
#include "refmm.h"
namespace refdoc {
using namespace ref;
struct Opt {
    unsigned extra = 10;        // further objects
    unsigned pages = 2;         // at most
    bool gens = false;          // non-zero generations
    bool sparse = false;        // gaps in the numbering
    bool garbage = true;        // unreachable objects
    bool dangling = true;       // references to missing objects
    bool info = true;
    bool filters = true;        // streams may be encoded
    int64_t maxGap = 3;
    bool indirectLength = false;
    std::function<void(int64_t, Obj&)> crypt;
    GenOpt values;
};
struct M {                      // Obj::raw holds the encoded stream; data its decoded content
    Doc d;
    std::map<int64_t, std::string> data;
    std::vector<int64_t> nums() const { std::vector<int64_t> r; for (auto& x : d.objs) r.push_back(x.first); return r; }
    int64_t max() const { return d.objs.empty() ? 0 : d.objs.rbegin()->first; }
    int64_t root() const { return d.trailer.get("Root")->i; }
};
M gen(pbt::Src& g, const Opt& o);
// a value with references to objects of the model
V genValue(pbt::Src& g, const M& m, const GenOpt& o, bool dangling);
// sets a stream on an object of the model (encodes it as another producer could)
void setStream(pbt::Src& g, M& m, int64_t n, const std::string& data, bool filters);
std::string genData(pbt::Src& g, unsigned max = 400);
// numbers reachable from the trailer (existing objects only)
std::set<int64_t> reachable(const Doc& d);
void refsOf(const V& v, std::vector<V>& out);
// serialise as one file revision
std::string write(pbt::Src& g, const M& m, const Layout& l, bool noise, std::set<int64_t>* helpers = nullptr, FileWriter* fw = nullptr);
std::string str(const M& m);
// compares what pdfmm holds with the model. Returns "" or the first difference
struct CmpOpt { bool exactSet = true; std::set<int64_t> ignore; bool ignoreLength = true; bool ignoreFilter = true; double realTol = 5.1e-7; bool gens = true; };
std::string compare(const std::map<int64_t, refmm::Snap>& got, const std::map<int64_t, refmm::Snap>& want, const CmpOpt& o = {});
std::map<int64_t, refmm::Snap> snap(const M& m);
std::map<int64_t, refmm::Snap> snap(const Doc& d);   // decodes the streams; throws SyntaxError
std::map<int64_t, refmm::Snap> only(const std::map<int64_t, refmm::Snap>& s, const std::set<int64_t>& keep);
std::set<int64_t> reachable(const std::map<int64_t, refmm::Snap>& s, const V& trailer);
// builds the model through the API; returns the reference of each model object. Catalog, page tree, pages and Info are the document's own
struct Built { std::map<int64_t, mm::PdfReference> at; std::set<int64_t> own; };
Built buildMm(pbt::Src& g, M& m, mm::PdfMemDocument& doc);
V mapRefs(V v, const Built& b);
// a file with several revisions; `m` becomes the final state
struct History { std::string bytes; std::set<int64_t> helpers; std::map<int64_t, uint32_t> freed; int64_t size = 0; std::vector<Layout> layouts; unsigned revisions = 1; };
History history(pbt::Src& g, M& m, const Opt& o, unsigned revisions, bool noise, int forceXref = -1);
mm::PdfSaveOptions genSave(pbt::Src& g);
std::string saveStr(mm::PdfSaveOptions o);
inline bool has(mm::PdfSaveOptions o, mm::PdfSaveOptions f) { return (o & f) != mm::PdfSaveOptions::None; }
std::unique_ptr<mm::PdfMemDocument> loadMm(const std::string& bytes, unsigned how = 0);
// scratch directory of this process, removed at exit
std::string scratch(const std::string& name);
std::string slurp(const std::string& path);
void spit(const std::string& path, const std::string& data);
}
