// URIs: what a URI of the client is taken for, and what is sent back for it.
#include "lspserver/Protocol.h"
#include "lspserver/URI.h"
#include <llvm/Support/Path.h>
#include <nlohmann/json.hpp>
#include <iostream>
#include <unistd.h>
using namespace lspserver;
using J = nlohmann::json;
static std::string unhex(const std::string &S) {
  std::string R;
  for (size_t I = 0; I + 1 < S.size(); I += 2) R += static_cast<char>(std::stoi(S.substr(I, 2), nullptr, 16));
  return R;
}
static std::string hex(llvm::StringRef S) {
  static const char *D = "0123456789abcdef";
  std::string R;
  for (unsigned char C : S) { R += D[C >> 4]; R += D[C & 15]; }
  return R;
}
static J path(llvm::StringRef U) { // as a message's field is read
  URIForFile F;
  llvm::json::Path::Root Root;
  if (!fromJSON(llvm::json::Value(llvm::json::fixUTF8(U)), F, Root)) return nullptr;
  return hex(F.file());
}
int main() {
  std::string L;
  while (std::getline(std::cin, L)) {
    J Q = J::parse(L), O = J::object();
    alarm(20);
    std::string U = unhex(Q["u"].get<std::string>());
    O["p"] = path(U);
    if (!O["p"].is_null()) {
      std::string P = unhex(O["p"].get<std::string>());
      if (llvm::sys::path::is_absolute(P)) {
        std::string B = URIForFile::canonicalize(P, P).uri(), C = URI::createFile(P).toString(), D = URI::create(P).toString();
        O["b"] = hex(B); O["bp"] = path(B);
        O["cp"] = path(C); O["dp"] = path(D);
      } else O["relative"] = true;
    }
    auto R = URI::resolve(U);
    if (R) O["r"] = hex(*R);
    else { llvm::consumeError(R.takeError()); O["r"] = nullptr; }
    std::cout << O.dump() << std::endl;
  }
}
