#!/usr/bin/env python3
"""Builds the simulator and the reverb library from /repo's working tree.

Usage: build.py [OUT_DIR]   (default /verif/build)
All output goes to OUT_DIR; /repo is only read.
"""
import glob
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = "/opt/reverb-deps"
CXX = os.environ.get("SIM_CXX", "g++")


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def overlay_low_level(out):
    """absl header without its forward declarations of Mutex and CondVar."""
    for d in ("/usr/include/absl/base/internal/low_level_scheduling.h",):
        with open(d) as f:
            lines = f.read().split("\n")
    keep = [l for l in lines
            if l.strip() not in ("class CondVar;", "class Mutex;",
                                 "friend class absl::CondVar;",
                                 "friend class absl::Mutex;",
                                 "friend class CondVar;",
                                 "friend class Mutex;")]
    write_if_changed(
        os.path.join(out, "overlay/absl/base/internal/low_level_scheduling.h"),
        "\n".join(keep))


def main():
    out = sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, "build")
    os.makedirs(out, exist_ok=True)
    overlay_low_level(out)
    gen = os.path.join(out, "gen")
    protos = sorted(glob.glob(REPO + "/reverb/cc/**/*.proto", recursive=True))
    srcs = sorted(glob.glob(REPO + "/reverb/cc/**/*.cc", recursive=True))
    srcs = [s for s in srcs
            if not s.endswith("_test.cc") and "/ops/" not in s
            and "/testing/" not in s
            and not s.endswith("platform/default/thread.cc")]
    mine = sorted(glob.glob(VERIF + "/sim/*.cc") +
                  glob.glob(VERIF + "/harness/*.cc"))
    inc = [os.path.join(out, "overlay"), VERIF + "/sim/overlay", VERIF, REPO,
           gen, DEPS + "/overlay", DEPS + "/tf/include",
           DEPS + "/tf/include/external/snappy"]
    common = ("-std=gnu++17 -mavx -w -DNDEBUG -DEIGEN_MAX_ALIGN_BYTES=64 "
              "-DREVERB_SIM=1 -DREVERB_SIMULATION=1 -fno-omit-frame-pointer -fno-pie "
              + " ".join("-I" + i for i in inc))
    n = []
    w = n.append
    w("ninja_required_version = 1.5")
    w("builddir = " + out)
    w("cxx = " + CXX)
    w("common = " + common)
    w("rule pch\n  command = $cxx $common $opt -x c++-header -MMD -MF $out.d -c $in -o $out\n"
      "  depfile = $out.d\n  deps = gcc")
    w("rule cc\n  command = $cxx $common $opt -MMD -MF $out.d -c $in -o $out\n"
      "  depfile = $out.d\n  deps = gcc")
    w("rule proto\n  command = /usr/bin/protoc -I%s/tf/include -I%s -I/usr/include "
      "--cpp_out=%s $in" % (DEPS, REPO, gen))
    w("rule grpcproto\n  command = /usr/bin/protoc -I%s/tf/include -I%s -I/usr/include "
      "--cpp_out=%s --plugin=protoc-gen-grpc=/usr/bin/grpc_cpp_plugin "
      "--grpc_out=generate_mock_code=true:%s $in" % (DEPS, REPO, gen, gen))
    # Weak functions of instrumented code must not take the place of the shared
    # libraries' own: a preemption inside TensorFlow could then happen while
    # it holds a real lock. Link once, list them, link again without them.
    w("rule link\n  command = $cxx -no-pie -o $out.1 $in $libs && "
      "(echo '{ local:'; nm -D --defined-only $out.1 | "
      "awk '$$2==\"W\"{sub(/@.*/,\"\",$$3); print $$3 \";\"}'; echo '};') > $out.map && "
      "$cxx -no-pie -Wl,--version-script=$out.map -o $out $in $libs && rm -f $out.1")
    # Likewise the simulator, the oracles and the generated code use their own
    # copies of inline functions, not the instrumented ones of the library:
    # they are never preempted half way.
    w("rule group\n  command = ld -r --force-group-allocation -o $out.r $in && "
      "nm $out.r | awk '$$2==\"W\"||($$2==\"V\"&&$$3!~/^_ZT[IS]|^_ZTVN8deepmind|^_ZN8deepmind/)"
      "{print $$3}' > $out.w && "
      "objcopy --localize-symbols=$out.w $out.r $out && rm -f $out.r")
    gen_hdrs, objs, pbcc, plain_objs = [], [], [], []
    for p in protos:
        rel = os.path.relpath(p, REPO)[:-len(".proto")]
        base = os.path.join(gen, rel)
        outs = [base + ".pb.h", base + ".pb.cc"]
        rule = "proto"
        if rel.endswith("service"):
            outs += [base + ".grpc.pb.h", base + ".grpc.pb.cc"]
            rule = "grpcproto"
        w("build %s: %s %s" % (" ".join(outs), rule, p))
        gen_hdrs += [o for o in outs if o.endswith(".h")]
        pbcc += [o for o in outs if o.endswith(".cc")]
    w("build protos: phony " + " ".join(gen_hdrs))
    # Precompiled headers: one for instrumented, one for plain code.
    # Headers must not see it: some classes have other layouts then.
    tsan = ("-O1 -fsanitize=thread --param tsan-distinguish-volatile=1 "
            "-U__SANITIZE_THREAD__")
    if "clang" in CXX:
        tsan = "-O1 -fsanitize=thread"
    plain = "-O1 -fno-gnu-unique"
    pchs = {}
    for name, flags in (("tsan", tsan), ("plain", plain)):
        h = os.path.join(out, "pch", name, "pch.h")
        write_if_changed(h, '#include "sim/pch_content.h"\n')
        o = h + (".pch" if "clang" in CXX else ".gch")
        w("build %s: pch %s || protos\n  opt = %s" % (o, h, flags))
        pchs[name] = (h, o)

    def compile(src, obj, flags, pch):
        use = ""
        dep = ""
        if pch:
            h, o = pchs[pch]
            use = (" -include-pch " + o if "clang" in CXX else
                   " -I%s -include pch.h" % os.path.dirname(h))
            dep = " | " + o
        w("build %s: cc %s%s || protos\n  opt = %s%s" %
          (obj, src, dep, flags, use))
        (objs if pch == "tsan" else plain_objs).append(obj)

    for s in srcs:
        rel = os.path.relpath(s, REPO).replace("/", "_")
        if s.endswith("platform/default/server.cc"):
            # Its server listens in the simulated network.
            compile(s, os.path.join(out, "obj/lib", rel + ".o"),
                    tsan + " -include " + VERIF + "/sim/server_overlay.h",
                    None)
            objs.append(plain_objs.pop())
            continue
        if s.endswith("support/signature.cc"):
            # Pure functions over protobuf maps, whose order differs between
            # executions: how many of their reads there are is not counted.
            compile(s, os.path.join(out, "obj/lib", rel + ".o"), plain, "plain")
            continue
        compile(s, os.path.join(out, "obj/lib", rel + ".o"), tsan, "tsan")
    for s in pbcc:
        rel = os.path.relpath(s, gen).replace("/", "_")
        compile(s, os.path.join(out, "obj/gen", rel + ".o"), plain, None)
    for s in mine:
        rel = os.path.relpath(s, VERIF).replace("/", "_")
        heavy = "/harness/" in s or s.endswith(("net.cc", "interpose.cc",
                                                 "thread_sim.cc", "disk.cc"))
        compile(s, os.path.join(out, "obj/sim", rel + ".o"), plain,
                "plain" if heavy else None)
    group = os.path.join(out, "obj/plain.o")
    w("build %s: group %s" % (group, " ".join(plain_objs)))
    objs.append(group)
    libs = ("-L%s/tf -L%s/lib -Wl,-rpath,%s/tf -l:libtensorflow_framework.so.2 "
            % (DEPS, DEPS, DEPS) if not os.path.exists(
                DEPS + "/tf/libtensorflow_framework.so") else
            "-L%s/tf -L%s/lib -Wl,-rpath,%s/tf -ltensorflow_framework "
            % (DEPS, DEPS, DEPS))
    libs += ("-lprotobuf " if False else "")
    libs += (
        "-lgrpc++ -lgrpc -lgpr -labsl_random_lts -labsl_random_seed_sequences -labsl_random_internal_pool_urbg -labsl_random_internal_randen -labsl_random_internal_randen_hwaes -labsl_random_internal_randen_hwaes_impl -labsl_random_internal_randen_slow -labsl_random_internal_seed_material -labsl_random_seed_gen_exception ")
    libs += "-lpthread -ldl -lrt -lm"
    w("build %s: link %s\n  libs = %s" %
      (os.path.join(out, "simrun"), " ".join(objs), libs))
    w("default " + os.path.join(out, "simrun"))
    write_if_changed(os.path.join(out, "build.ninja"), "\n".join(n) + "\n")
    os.makedirs(gen, exist_ok=True)
    r = subprocess.run(["ninja", "-f", os.path.join(out, "build.ninja")] +
                       sys.argv[2:], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    tail = "\n".join(l for l in r.stdout.split("\n") if "error" in l or "undefined" in l or "note:" in l)[:8000] or r.stdout[-4000:]
    if r.returncode != 0 or os.environ.get("BUILD_VERBOSE"):
        sys.stderr.write(tail + "\n")
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
