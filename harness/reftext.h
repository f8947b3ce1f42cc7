// Character maps, encodings and names of glyphs, written from the PDF specification.
#pragma once
#include "ref.h"
#include <map>
namespace reftext {
struct CMap {
    std::vector<std::pair<std::string, std::string>> space;      // code space ranges, byte by byte
    std::map<std::string, std::vector<uint32_t>> uni;            // bfchar, bfrange
    std::map<std::string, uint32_t> cid;                         // cidchar, cidrange
    bool inSpace(const std::string& code) const;
    bool next(const std::string& s, size_t& at, std::string& code) const;   // the code at a position, false if none matches
    bool split(const std::string& s, std::vector<std::string>& codes) const;
};
CMap parseCMap(const std::string& data);                         // strict; throws ref::SyntaxError
std::vector<uint32_t> utf16cps(const std::string& be);            // throws ref::SyntaxError
std::vector<uint32_t> cps(const std::string& utf8);
uint32_t glyphName(const std::string& name);                     // 0 if it is not known
const std::vector<std::pair<std::string, uint32_t>>& glyphNames();
enum class Enc { WinAnsi, MacRoman, Standard };
uint32_t decode(Enc e, uint8_t code);                            // 0 if not defined
bool same(uint32_t a, uint32_t b);                               // no-break space and space, soft hyphen and hyphen, ...
}
