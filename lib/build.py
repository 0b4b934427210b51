#!/usr/bin/env python3
"""Builds /repo's sources (from its working tree) plus the harnesses in
/verif/harness, out of tree, in /verif/.build/<variant>.  Usage:
    build.py TARGET...        targets: names of harnesses, or 'nixd', 'nixf-tidy'
Sources are found by globbing, so files added to /repo are picked up."""
import glob, os, re, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

def rglob(rel):
    return sorted(glob.glob(os.path.join(REPO, rel, "**", "*.cpp"), recursive=True))

def needs_nix(path):
    t = open(path, errors="replace").read()
    return bool(re.search(r'#\s*include\s*[<"](nix/|nixt/|nixd/Eval/(AttrSetProvider|EvalProvider)\.h)', t))

# harness name -> (repo parts it links, flags variant)
TARGETS = {
    "nixd":      (["nixf", "lsp", "nixd", "nixdmain"], "plain"),
    "nixd_sched": (["nixf", "lsp", "nixd", "nixdmain"], "plain"),
    "rpc_h":     (["lsp"], "asan"),
    "nixf_h":    (["nixf"], "asan"),
    "lex_h":     (["nixf"], "asan"),
    "action_h":  (["nixf", "lsp", "nixd"], "plain"),
    "lsp_h":     (["lsp"], "asan"),
    "uri_h":     (["lsp"], "asan"),
    "support_h": (["lsp", "nixd", "nixf"], "plain"),
    "worker_h":  (["lsp", "nixd", "nixf"], "plain"),
    "nixf-tidy": (["nixf", "tidy"], "asan"),
}
VARIANTS = {
    "plain": "-O0 -g1",
    "asan": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
}

def sources(part, gen):
    if part == "nixf":
        s = [p for p in rglob("libnixf/src") if not needs_nix(p)]
        return s + [gen + "/Diagnostic.cpp", VERIF + "/harness/PrimOpsInfo.cpp"]
    if part == "lsp":
        return rglob("nixd/lspserver/src")
    if part == "nixd":
        return [p for p in rglob("nixd/lib") if not needs_nix(p)]
    if part == "nixdmain":
        return [REPO + "/nixd/tools/nixd.cpp"]
    if part == "tidy":
        return [REPO + "/libnixf/tools/nixf-tidy.cpp"]
    raise KeyError(part)

def build(targets, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    gen = BUILD + "/gen"
    inc = gen + "/include"
    L = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    # generated sources of libnixf
    L += ["rule py", "  command = PYTHONDONTWRITEBYTECODE=1 python3 $in_py $out && touch -c $out", "  description = GEN $out"]
    b = REPO + "/libnixf/src/"
    gens = {inc + "/nixf/Basic/DiagnosticEnum.h": "Basic/DiagnosticEnum.h.py",
            inc + "/nixf/Parse/Tokens.h": "Parse/Tokens.h.py",
            inc + "/nixf/Parse/TokenKinds.inc": "Parse/TokenKinds.inc.py",
            gen + "/Diagnostic.cpp": "Basic/Diagnostic.cpp.py"}
    hdrs = [g for g in gens if not g.endswith(".cpp")]
    for out, py in gens.items():
        d = os.path.dirname(b + py)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        deps = sorted(glob.glob(d + "/*.py"))
        L += ["build %s: py | %s" % (out, " ".join(deps)), "  in_py = " + b + py]
    # the meson build puts these three next to its own include root, too
    common = ("-std=gnu++20 -w -D_GLIBCXX_ASSERTIONS -I%s -I%s/nixf/Basic -I%s/nixf/Parse -I%s/harness/stubs "
              "-I%s/libnixf/include -I%s/nixd/lspserver/include -I%s/nixd/include -isystem /usr/lib/llvm-18/include -I%s/harness -I%s/nixd/lib -I%s/libnixf/src"
              % (inc, inc, inc, VERIF, REPO, REPO, REPO, VERIF, REPO, REPO))
    cc = "ccache " if (shutil.which("ccache") and os.environ.get("VERIF_CCACHE")) else ""
    cxx = os.environ.get("VERIF_CXX", "g++")
    for v, fl in VARIANTS.items():
        L += ["rule cxx_" + v, "  command = %s%s %s %s -MD -MF $out.d -c $in -o $out" % (cc, cxx, common, fl),
              "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
              "rule link_" + v, "  command = %s %s $in -o $out -L/usr/lib/llvm-18/lib -lLLVM-18 -lboost_thread -lboost_system -lpthread" % (cxx, fl),
              "  description = LINK $out"]
    done = set()
    outs = []
    for t in targets:
        parts, v = TARGETS[t]
        objs = []
        srcs = []
        for p in parts:
            srcs += sources(p, gen)
        if os.path.exists(VERIF + "/harness/" + t + ".cpp"):
            srcs.append(VERIF + "/harness/" + t + ".cpp")
        for s in srcs:
            o = "%s/%s/%s.o" % (BUILD, v, s.lstrip("/").replace("/", "_"))
            objs.append(o)
            if o not in done:
                done.add(o)
                L += ["build %s: cxx_%s %s || %s" % (o, v, s, " ".join(hdrs))]
        out = BUILD + "/bin/" + t
        outs.append(out)
        L += ["build %s: link_%s %s" % (out, v, " ".join(objs))]
    nf = BUILD + "/build.%s.ninja" % "_".join(sorted(targets))
    open(nf, "w").write("\n".join(L) + "\n")
    env = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")
    r = subprocess.run(["ninja", "-f", nf] + outs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        sys.stderr.buffer.write(r.stdout[-6000:])
        raise SystemExit("harness build failed")
    return dict(zip(targets, outs))

if __name__ == "__main__":
    print(build(sys.argv[1:] or list(TARGETS)))
