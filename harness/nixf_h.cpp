// Reads one JSON request per line on stdin: {"s": <hex of source bytes>, "m": <modes>}
// and prints one JSON line with what libnixf's public API says about it.
// modes: t tree, d parse diagnostics, v variable lookup, a semantic attrs,
//        p parent map walk
#include <nixf/Basic/Diagnostic.h>
#include <nixf/Basic/Nodes/Attrs.h>
#include <nixf/Basic/Nodes/Expr.h>
#include <nixf/Basic/Nodes/Lambda.h>
#include <nixf/Basic/Nodes/Op.h>
#include <nixf/Basic/Nodes/Simple.h>
#include <nixf/Parse/Parser.h>
#include <nixf/Sema/ParentMap.h>
#include <nixf/Sema/VariableLookup.h>
#include <nlohmann/json.hpp>
#include <iostream>
#include <set>
#include <csignal>
#include <unistd.h>
using namespace nixf;
using J = nlohmann::json;

static std::string hex(std::string_view S) {
  static const char *D = "0123456789abcdef";
  std::string R;
  for (unsigned char C : S) { R += D[C >> 4]; R += D[C & 15]; }
  return R;
}
static std::string unhex(const std::string &S) {
  std::string R;
  for (size_t I = 0; I + 1 < S.size(); I += 2)
    R += static_cast<char>(std::stoi(S.substr(I, 2), nullptr, 16));
  return R;
}
static J rng(LexerCursorRange R) {
  return J::array({R.lCur().offset(), R.rCur().offset(), R.lCur().line(), R.lCur().column(), R.rCur().line(), R.rCur().column()});
}
static J parts(const InterpolatedParts &P) {
  J A = J::array();
  for (const auto &F : P.fragments()) {
    if (F.kind() == InterpolablePart::SPK_Escaped) A.push_back(J::array({"s", hex(F.escaped())}));
    else A.push_back(J::array({"i", F.interpolation().lCur().offset()}));
  }
  return A;
}
static J semaJ(const ExprAttrs &E);
static J attrJ(const Attribute &A) {
  J O;
  O["k"] = A.kind() == Attribute::AttributeKind::Plain ? "p" : A.kind() == Attribute::AttributeKind::Inherit ? "i" : "f";
  O["key"] = J::array({A.key().lCur().offset(), A.key().rCur().offset()});
  if (A.value()) {
    O["v"] = J::array({A.value()->name(), A.value()->lCur().offset(), A.value()->rCur().offset()});
    const Node *V = A.value();
    while (V && V->kind() == Node::NK_ExprParen) V = static_cast<const ExprParen *>(V)->expr();
    if (V && V->kind() == Node::NK_ExprAttrs) O["a"] = semaJ(static_cast<const ExprAttrs &>(*V));
  }
  return O;
}
static J semaJ(const ExprAttrs &E) {
  J O;
  O["rec"] = E.sema().isRecursive();
  O["st"] = J::object();
  for (const auto &[N, A] : E.sema().staticAttrs()) O["st"][hex(N)] = attrJ(A);
  O["dy"] = J::array();
  for (const auto &A : E.sema().dynamicAttrs()) O["dy"].push_back(attrJ(A));
  return O;
}
static J extra(const Node &N) {
  switch (N.kind()) {
  case Node::NK_Identifier: return hex(static_cast<const Identifier &>(N).name());
  case Node::NK_ExprVar: return hex(static_cast<const ExprVar &>(N).id().name());
  case Node::NK_ExprInt: return static_cast<const ExprInt &>(N).value();
  case Node::NK_ExprFloat: return static_cast<const ExprFloat &>(N).value();
  case Node::NK_Op: return tok::spelling(static_cast<const Op &>(N).op());
  case Node::NK_ExprBinOp:
  case Node::NK_ExprUnaryOp:
  case Node::NK_ExprOpHasAttr: return tok::spelling(static_cast<const ExprOp &>(N).op().op());
  case Node::NK_InterpolableParts: return parts(static_cast<const InterpolatedParts &>(N));
  case Node::NK_ExprSPath: return hex(static_cast<const ExprSPath &>(N).text());
  case Node::NK_AttrName: {
    const auto &A = static_cast<const AttrName &>(N);
    return A.isStatic() ? J(hex(A.staticName())) : J(nullptr);
  }
  case Node::NK_ExprAttrs: return static_cast<const ExprAttrs &>(N).isRecursive();
  case Node::NK_Formal: return static_cast<const Formal &>(N).isEllipsis();
  case Node::NK_Formals: {
    J A = J::array();
    for (const auto &[K, F] : static_cast<const Formals &>(N).dedup())
      A.push_back(J::array({hex(K), F->id()->lCur().offset()}));
    return A;
  }
  case Node::NK_Inherit: return static_cast<const Inherit &>(N).expr() != nullptr;
  case Node::NK_ExprSelect: {
    const auto &S = static_cast<const ExprSelect &>(N);
    return J::array({S.path() != nullptr, S.defaultExpr() != nullptr});
  }
  default: return nullptr;
  }
}
static J tree(const Node *N) {
  if (!N) return nullptr;
  J C = J::array();
  for (const Node *Ch : N->children()) C.push_back(tree(Ch));
  return J::array({N->name(), rng(N->range()), extra(*N), std::move(C)});
}
static J diags(const std::vector<Diagnostic> &Ds) {
  J A = J::array();
  for (const auto &D : Ds) {
    J O;
    O["n"] = D.sname();
    O["sev"] = static_cast<int>(Diagnostic::severity(D.kind()));
    O["r"] = rng(D.range());
    O["args"] = J::array();
    for (const auto &X : D.args()) O["args"].push_back(hex(X));
    O["msg"] = hex(D.format());
    O["tags"] = D.tags().size();
    O["tagv"] = J::array();
    for (auto X : D.tags()) O["tagv"].push_back(static_cast<int>(X));
    O["notes"] = J::array();
    for (const auto &X : D.notes()) O["notes"].push_back(J::array({X.sname(), rng(X.range()), hex(X.format())}));
    O["fixes"] = J::array();
    for (const auto &F : D.fixes()) {
      J E = J::array();
      for (const auto &T : F.edits()) E.push_back(J::array({rng(T.oldRange()), hex(T.newText())}));
      O["fixes"].push_back(J::array({hex(F.message()), E}));
    }
    A.push_back(O);
  }
  return A;
}
static void vars(const Node *N, const VariableLookupAnalysis &V, std::set<const Node *> &Seen, J &Out, J &Defs);
// Variables and definitions of a set that are not in the syntax tree: the
// variables `inherit x;` stands for, and what was merged from elsewhere.
static void semaVars(const SemaAttrs &SA, const VariableLookupAnalysis &V, std::set<const Node *> &Seen, J &Out, J &Defs) {
  for (const auto &[Name, A] : SA.staticAttrs()) {
    vars(&A.key(), V, Seen, Out, Defs);
    if (A.value() && A.kind() == Attribute::AttributeKind::Inherit) vars(A.value(), V, Seen, Out, Defs);
    if (A.value() && A.value()->kind() == Node::NK_ExprAttrs) semaVars(static_cast<const ExprAttrs *>(A.value())->sema(), V, Seen, Out, Defs);
  }
  for (const auto &A : SA.dynamicAttrs())
    if (A.value() && A.value()->kind() == Node::NK_ExprAttrs) semaVars(static_cast<const ExprAttrs *>(A.value())->sema(), V, Seen, Out, Defs);
}
static void vars(const Node *N, const VariableLookupAnalysis &V, std::set<const Node *> &Seen, J &Out, J &Defs) {
  if (!N || !Seen.insert(N).second) return;
  if (N->kind() == Node::NK_ExprVar) {
    const auto &X = static_cast<const ExprVar &>(*N);
    auto R = V.query(X);
    J O;
    O["n"] = hex(X.id().name());
    O["at"] = N->lCur().offset();
    using K = VariableLookupAnalysis::LookupResultKind;
    O["k"] = R.Kind == K::Undefined ? "undef" : R.Kind == K::FromWith ? "with" : R.Kind == K::Defined ? "def" : "none";
    O["def"] = nullptr;
    O["src"] = nullptr;
    if (R.Def) {
      O["src"] = static_cast<int>(R.Def->source());
      if (R.Def->syntax()) O["def"] = R.Def->syntax()->lCur().offset();
      O["used"] = std::count(R.Def->uses().begin(), R.Def->uses().end(), &X);
    }
    O["ws"] = J::array();
    for (const ExprWith *W : V.getWithScopes(X)) O["ws"].push_back(W->kwWith().lCur().offset());
    Out.push_back(O);
  }
  if (const Definition *D = V.toDef(*N)) {
    J O;
    O["at"] = N->lCur().offset();
    O["src"] = static_cast<int>(D->source());
    std::vector<size_t> U;
    for (const ExprVar *X : D->uses()) U.push_back(X->lCur().offset());
    std::sort(U.begin(), U.end());
    O["uses"] = U;
    Defs.push_back(O);
  }
  if (N->kind() == Node::NK_ExprAttrs) semaVars(static_cast<const ExprAttrs &>(*N).sema(), V, Seen, Out, Defs);
  for (const Node *C : N->children()) vars(C, V, Seen, Out, Defs);
}
static void semas(const Node *N, J &Out) {
  if (!N) return;
  if (N->kind() == Node::NK_ExprAttrs) {
    J O = semaJ(static_cast<const ExprAttrs &>(*N));
    O["at"] = N->lCur().offset();
    Out.push_back(O);
  }
  for (const Node *C : N->children()) semas(C, Out);
}
// Every node must find its parent, and descending to a node's own range must
// end in a node whose range is inside it.
static void parents(const Node *N, const Node *P, const Node *Root, const ParentMapAnalysis &PM, J &Bad) {
  if (!N) return;
  const Node *Q = PM.query(*N);
  if (P ? Q != P : !(Q == N || Q == nullptr)) Bad.push_back(J::array({"parent", N->name(), N->lCur().offset()}));
  const Node *D = Root->descend(N->positionRange());
  if (!D || !D->positionRange().contains(N->positionRange())) Bad.push_back(J::array({"descend", N->name(), N->lCur().offset()}));
  for (const Node *C : N->children()) {
    // The keyword `let` doubles as what makes the set of a let recursive.
    if (C && C->kind() == Node::NK_Misc && N->kind() == Node::NK_ExprAttrs) continue;
    parents(C, N, Root, PM, Bad);
  }
}

int main() {
  std::string L;
  while (std::getline(std::cin, L)) {
    J Q = J::parse(L);
    std::string Src = unhex(Q["s"].get<std::string>());
    std::string M = Q["m"].get<std::string>();
    alarm(20);
    // An exact-size heap copy: reading past the end is caught by ASan.
    std::unique_ptr<char[]> Buf(new char[Src.size() ? Src.size() : 1]);
    memcpy(Buf.get(), Src.data(), Src.size());
    std::string_view SV(Buf.get(), Src.size());
    J O;
    std::vector<Diagnostic> Ds;
    std::shared_ptr<Node> Root = nixf::parse(SV, Ds);
    auto Has = [&](char C) { return M.find(C) != std::string::npos; };
    if (Has('d')) O["d"] = diags(Ds);
    if (Has('t')) O["t"] = tree(Root.get());
    if (Has('a')) { O["a"] = J::array(); if (Root) semas(Root.get(), O["a"]); }
    if (Has('p') && Root) {
      ParentMapAnalysis PM; PM.runOnAST(*Root);
      O["p"] = J::array();
      parents(Root.get(), nullptr, Root.get(), PM, O["p"]);
    }
    if (Has('v') && Root) {
      ParentMapAnalysis PM; PM.runOnAST(*Root);
      std::vector<Diagnostic> VD;
      VariableLookupAnalysis V(VD);
      V.runOnAST(*Root);
      J A = J::array(), B = J::array();
      std::set<const Node *> Seen;
      vars(Root.get(), V, Seen, A, B);
      O["v"] = A; O["defs"] = B; O["vd"] = diags(VD);
    }
    alarm(0);
    std::cout << O.dump(-1, ' ', false, J::error_handler_t::replace) << "\n" << std::flush;
  }
  return 0;
}
