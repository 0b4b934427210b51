// Tokens of a text in expression state, as the parser asks for them: after the
// start of a path the lexer is asked again, in path state, until the path ends.
#include "Parse/Lexer.h"
#include <nlohmann/json.hpp>
#include <cstring>
#include <iostream>
#include <memory>
#include <unistd.h>
using namespace nixf;
using J = nlohmann::json;
static std::string unhex(const std::string &S) {
  std::string R;
  for (size_t I = 0; I + 1 < S.size(); I += 2) R += static_cast<char>(std::stoi(S.substr(I, 2), nullptr, 16));
  return R;
}
static std::string hex(std::string_view S) {
  static const char *D = "0123456789abcdef";
  std::string R;
  for (unsigned char C : S) { R += D[C >> 4]; R += D[C & 15]; }
  return R;
}
int main() {
  std::string L;
  while (std::getline(std::cin, L)) {
    J Q = J::parse(L);
    std::string Src = unhex(Q["s"].get<std::string>());
    alarm(20);
    std::unique_ptr<char[]> Buf(new char[Src.size() ? Src.size() : 1]);
    memcpy(Buf.get(), Src.data(), Src.size());
    std::vector<Diagnostic> Ds;
    Lexer X(std::string_view(Buf.get(), Src.size()), Ds);
    J A = J::array();
    for (;;) {
      Token T = X.lex();
      std::string K;
      using namespace tok;
      if (T.kind() == tok_eof) break;
      size_t B = T.lCur().offset(), E = T.rCur().offset();
      switch (T.kind()) {
      case tok_id: K = "id"; break;
      case tok_int: K = "int"; break;
      case tok_float: K = "float"; break;
      case tok_spath: K = "spath"; break;
      case tok_uri: K = "uri"; break;
      case tok_unknown: K = "unknown"; break;
      case tok_path_fragment: {
        K = "path";
        X.setCur(T.lCur());
        Token P = X.lexPath();
        E = P.rCur().offset();
        for (P = X.lexPath(); P.kind() == tok_path_fragment; P = X.lexPath()) E = P.rCur().offset();
        if (P.kind() == tok_dollar_curly) K = "pathitp";
        break;
      }
      default: K = T.view();
      }
      A.push_back(J::array({K, B, E - B, hex(std::string_view(Buf.get(), Src.size()).substr(B, E - B))}));
      if (K == "\"" || K == "''" || K == "pathitp") break; // other states follow
    }
    J O;
    O["l"] = A;
    O["d"] = J::array();
    for (auto &D : Ds) O["d"].push_back(D.sname());
    std::cout << O.dump() << std::endl;
  }
}
