// Positions and changes of documents: lspserver/SourceCode.h.
#include "lspserver/SourceCode.h"
#include "lspserver/URI.h"
#include <nlohmann/json.hpp>
#include <iostream>
#include <unistd.h>
using namespace lspserver;
using J = nlohmann::json;
static std::string unhex(const std::string &S) {
  std::string R;
  for (size_t I = 0; I + 1 < S.size(); I += 2) R += static_cast<char>(std::stoi(S.substr(I, 2), nullptr, 16));
  return R;
}
static std::string hex(std::string_view S) {
  static const char *D = "0123456789abcdef";
  std::string R;
  for (unsigned char C : S) { R += D[C >> 4]; R += D[C & 15]; }
  return R;
}
static Position pos(const J &P) {
  Position R;
  R.line = P[0].get<int>();
  R.character = P[1].get<int>();
  return R;
}
static J pos(const Position &P) { return J::array({P.line, P.character}); }
static J off(llvm::Expected<size_t> O) {
  if (O) return *O;
  llvm::consumeError(O.takeError());
  return -1;
}
int main() {
  std::string L;
  while (std::getline(std::cin, L)) {
    J Q = J::parse(L), O = J::object();
    alarm(20);
    if (Q.contains("grid")) { // text, positions
      std::string S = unhex(Q["s"].get<std::string>());
      O["off"] = J::array();
      for (const J &P : Q["grid"])
        O["off"].push_back(J::array({off(positionToOffset(S, pos(P), false)), off(positionToOffset(S, pos(P)))}));
      O["pos"] = J::array();
      for (size_t I = 0; I <= S.size() + 2; I++) O["pos"].push_back(pos(offsetToPosition(S, I)));
      O["len"] = lspLength(S);
    } else if (Q.contains("changes")) { // text, changes
      std::string S = unhex(Q["s"].get<std::string>());
      O["r"] = nullptr;
      bool Ok = true;
      for (const J &C : Q["changes"]) {
        TextDocumentContentChangeEvent E;
        if (!C[0].empty()) {
          Range R;
          R.start.line = C[0][0]; R.start.character = C[0][1];
          R.end.line = C[0][2]; R.end.character = C[0][3];
          E.range = R;
        }
        if (C[1].get<int>() >= 0) E.rangeLength = C[1].get<int>();
        E.text = unhex(C[2].get<std::string>());
        if (auto Err = applyChange(S, E)) {
          llvm::consumeError(std::move(Err));
          Ok = false;
          break;
        }
      }
      if (Ok) O["r"] = hex(S);
    }
    std::cout << O.dump() << std::endl;
  }
}
