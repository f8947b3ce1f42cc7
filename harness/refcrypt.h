// Independent implementation of the standard security handler (ISO 32000-1 7.6, ISO 32000-2 7.6, Adobe ExtensionLevel 3).
#pragma once
#include "ref.h"
namespace ref {
struct Crypt {
    int V = 2, R = 3, bits = 128; bool aes = false, encMeta = true; uint32_t P = 0xFFFFF0C0u;
    std::string user, owner, id0;                 // passwords, when known
    std::string O, U, OE, UE, Perms, key;
    int who = 0;                                  // how it was opened: 1 user 2 owner
};
// fills O, U, (OE, UE, Perms) and the key from the passwords. Salts and file keys come from g
void cryptMake(Crypt& c, pbt::Src& g);
V cryptDict(const Crypt& c, pbt::Src* g);
// nullopt: the password is wrong. Throws SyntaxError when the dictionary is not conforming
std::optional<Crypt> cryptOpen(const V& dict, const std::string& id0, const std::string& pw, bool ownerOnly = false);
std::string cryptEnc(const Crypt& c, int64_t num, uint32_t gen, const std::string& data, pbt::Src* g);
std::string cryptDec(const Crypt& c, int64_t num, uint32_t gen, const std::string& data);
// a whole object (strings and stream); leaves cross-reference streams and what the handler leaves alone
void cryptObj(const Crypt& c, int64_t num, Obj& o, bool enc, pbt::Src* g);
// everything in a file; pbt failure when the password does not open it. Returns the handler
Crypt cryptDoc(Doc& d, const std::string& pw, bool ownerOnly = false);
// password as SASLprep gives it is the caller's business for R5 and R6
}
