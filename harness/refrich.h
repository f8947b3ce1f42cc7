// Random use of the high level features on a document.
#pragma once
#include "refdoc.h"
namespace refrich {
struct Opt { bool draw = true, fonts = true, pages = true, forms = true, images = true, meta = true, attach = true; std::string word = ""; /* put in all texts */ };
// applies `ops` operations; the document has at least one page afterwards
void enrich(pbt::Src& g, mm::PdfMemDocument& doc, unsigned ops, const Opt& o = {});
std::string text(pbt::Src& g, unsigned max = 12);      // utf-8 that fonts can show
mm::PdfRect rect(pbt::Src& g);
std::shared_ptr<mm::PdfDestination> dest(pbt::Src& g, mm::PdfMemDocument& doc);
}
