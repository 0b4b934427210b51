// Stand-in for the table meson generates by linking against Nix: the names
// Nix 2.x registers (docs shortened).  See DESIGN.md.
#include <nixf/Sema/PrimOpInfo.h>
#define P(N, A) {N, nixf::PrimOpInfo{.Args = {}, .Arity = A, .Doc = "doc of " N, .Internal = false}},
std::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo = {
  // known to Nix itself only
  {"fetchFinalTree", nixf::PrimOpInfo{.Args = {}, .Arity = 1, .Doc = "internal", .Internal = true}},
  P("abort", 1)
  P("baseNameOf", 1)
  P("break", 1)
  P("derivationStrict", 1)
  P("dirOf", 1)
  P("fetchGit", 1)
  P("fetchMercurial", 1)
  P("fetchTarball", 1)
  P("fetchTree", 1)
  P("fromTOML", 1)
  P("import", 1)
  P("isNull", 1)
  P("map", 2)
  P("placeholder", 1)
  P("removeAttrs", 2)
  P("scopedImport", 2)
  P("throw", 1)
  P("toString", 1)
  P("__add", 2)
  P("__addErrorContext", 2)
  P("__all", 2)
  P("__any", 2)
  P("__appendContext", 2)
  P("__attrNames", 1)
  P("__attrValues", 1)
  P("__bitAnd", 2)
  P("__bitOr", 2)
  P("__bitXor", 2)
  P("__catAttrs", 2)
  P("__ceil", 1)
  P("__compareVersions", 2)
  P("__concatLists", 1)
  P("__concatMap", 2)
  P("__concatStringsSep", 2)
  P("__deepSeq", 2)
  P("__div", 2)
  P("__elem", 2)
  P("__elemAt", 2)
  P("__fetchurl", 1)
  P("__filter", 2)
  P("__filterSource", 2)
  P("__findFile", 2)
  P("__floor", 1)
  P("__foldl'", 3)
  P("__fromJSON", 1)
  P("__functionArgs", 1)
  P("__genList", 2)
  P("__genericClosure", 1)
  P("__getAttr", 2)
  P("__getEnv", 1)
  P("__groupBy", 2)
  P("__hasAttr", 2)
  P("__hasContext", 1)
  P("__hashFile", 2)
  P("__hashString", 2)
  P("__head", 1)
  P("__intersectAttrs", 2)
  P("__isAttrs", 1)
  P("__isBool", 1)
  P("__isFloat", 1)
  P("__isFunction", 1)
  P("__isInt", 1)
  P("__isList", 1)
  P("__isPath", 1)
  P("__isString", 1)
  P("__length", 1)
  P("__lessThan", 2)
  P("__listToAttrs", 1)
  P("__mapAttrs", 2)
  P("__match", 2)
  P("__mul", 2)
  P("__parseDrvName", 1)
  P("__partition", 2)
  P("__path", 1)
  P("__pathExists", 1)
  P("__readDir", 1)
  P("__readFile", 1)
  P("__replaceStrings", 3)
  P("__seq", 2)
  P("__sort", 2)
  P("__split", 2)
  P("__splitVersion", 1)
  P("__storePath", 1)
  P("__stringLength", 1)
  P("__sub", 2)
  P("__substring", 3)
  P("__tail", 1)
  P("__toFile", 2)
  P("__toJSON", 1)
  P("__toPath", 1)
  P("__toXML", 1)
  P("__trace", 2)
  P("__tryEval", 1)
  P("__typeOf", 1)
  P("__unsafeDiscardStringContext", 1)
  P("__unsafeGetAttrPos", 2)
  P("__zipAttrsWith", 2)
};
