# What is built, and which runs decide each property.
CONVERTER_SRCS = {  # need google/protobuf/util/converter: built against the shim
    "json_request_translator.cc", "prefix_writer.cc", "request_message_translator.cc", "request_stream_translator.cc",
    "request_weaver.cc", "response_to_json_translator.cc", "status_error_listener.cc", "type_helper.cc"}

import glob
ABSL = ["-Wl,--as-needed"] + sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))
PB = ["-lprotobuf"]
WARN = ["-w"]
FLAVORS = {
    "o2": {"cxx": ["-std=c++20", "-O2", "-g1"] + WARN, "link": []},
    "san": {"cxx": ["-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DMC_SAN"] + WARN,
            "link": ["-fsanitize=address,undefined"]},
    "cov": {"cxx": ["-std=c++20", "-O1", "-g1", "-fsanitize-coverage=trace-pc"] + WARN, "link": []},
}
FLAVORS["sched"] = {"cxx": ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + WARN,
                    "link": ["-Wl,--wrap=memcmp,--wrap=bcmp", "-rdynamic"]}
SHIM = [("shim.cc", ["!plain"]), ("real.cc", ["!plain", "!real"])]
TARGETS = {
    "template": dict(repo="core", srcs=["h_template.cc"], libs=PB + ABSL),
    "percent": dict(repo="core", srcs=["h_percent.cc"], libs=PB + ABSL),
    "rule": dict(repo="core", srcs=["h_rule.cc"], gen=["google/api/http.pb.cc", "google/api/annotations.pb.cc"], libs=PB + ABSL),
    "reader": dict(repo="core", srcs=["h_reader.cc"], libs=PB + ABSL),
    "stream": dict(repo="core", srcs=["h_stream.cc"], libs=PB + ABSL),
    "cost": dict(repo="core", srcs=["h_cost.cc", ("cov_rt.cc", ["!plain", "-fno-builtin"])], libs=PB + ABSL),
    "flow": dict(repo="all", inc=["shim"], srcs=["h_flow.cc", ("shim.cc", ["!plain"]), ("real.cc", ["!plain", "!real", "-DMC_COV"]), ("cov_rt.cc", ["!plain", "-fno-builtin"])], gen=["mc.pb.cc"], libs=PB + ABSL),
    "indep": dict(repo="all", inc=["shim"], srcs=["h_indep.cc"] + SHIM, gen=["mc.pb.cc", "google/api/http.pb.cc", "google/api/annotations.pb.cc"], libs=PB + ABSL),
    "indepconc": dict(repo="all", inc=["shim"], cxx=["-DMC_SCHED"], srcs=["h_indep.cc", ("sched_rt.cc", ["!plain", "-fno-threadsafe-statics"])] + SHIM, gen=["mc.pb.cc", "google/api/http.pb.cc", "google/api/annotations.pb.cc"], libs=PB + ABSL),
    "conc": dict(repo="core", srcs=["h_conc.cc", ("sched_rt.cc", ["!plain", "-fno-threadsafe-statics"])], libs=PB + ABSL),
    "weave": dict(repo="all", inc=["shim"], srcs=["h_weave.cc"] + SHIM, libs=PB + ABSL),
    "types": dict(repo="all", inc=["shim"], srcs=["h_types.cc"] + SHIM, libs=PB + ABSL),
    "typeconc": dict(repo="all", inc=["shim"], srcs=["h_typeconc.cc", ("sched_rt.cc", ["!plain", "-fno-threadsafe-statics"])] + SHIM, libs=PB + ABSL),
    "response": dict(repo="all", inc=["shim"], srcs=["h_response.cc"] + SHIM, gen=["mc.pb.cc"], libs=PB + ABSL),
    "request": dict(repo="all", inc=["shim"], srcs=["h_request.cc"] + SHIM, gen=["mc.pb.cc"], libs=PB + ABSL),
    "transconc": dict(repo="all", inc=["shim"], srcs=["h_transconc.cc", ("sched_rt.cc", ["!plain", "-fno-threadsafe-statics"])] + SHIM, gen=["mc.pb.cc"], libs=PB + ABSL),
    "lenient": dict(repo="all", inc=["shim"], srcs=["h_lenient.cc"] + SHIM, gen=["mc.pb.cc"], libs=PB + ABSL),
    "convert": dict(repo="all", inc=["shim"], srcs=["h_convert.cc"] + SHIM, gen=["mc.pb.cc"], libs=PB + ABSL),
    "life": dict(repo="all", inc=["shim"], srcs=["h_life.cc"] + SHIM, gen=["mc.pb.cc"], libs=PB + ABSL),
    "events": dict(repo="all", inc=["shim"], srcs=["h_events.cc"] + SHIM, gen=["mc.pb.cc"], libs=PB + ABSL),
    "registry": dict(repo="all", inc=["shim"], srcs=["h_registry.cc"] + SHIM, gen=["mc.pb.cc"], libs=PB + ABSL),
    "pipe": dict(repo="all", inc=["shim"], srcs=["h_pipe.cc"] + SHIM, gen=["mc.pb.cc", "google/api/http.pb.cc", "google/api/annotations.pb.cc"], libs=PB + ABSL),
    "node": dict(repo="core", srcs=["h_node.cc"], libs=PB + ABSL),
    "matcher": dict(repo="core", srcs=["h_matcher.cc"], libs=PB + ABSL),
}


def both(t, **kw):
    return [dict(target=t, flavor="o2", **kw), dict(target=t, flavor="san", **kw)]


CHECKS = {
    "C01": dict(runs=both("template")),
    "C02": dict(runs=both("template")),
    "C03": dict(runs=both("matcher")),
    "C04": dict(runs=both("matcher")),
    "C05": dict(runs=both("matcher")),
    "C06": dict(runs=both("matcher")),
    "C07": dict(runs=both("percent")),
    "C08": dict(runs=both("matcher")),
    "C09": dict(runs=both("matcher")),
    "C10": dict(runs=both("rule")),
    "C11": dict(runs=both("matcher")),
    "C12": dict(runs=[dict(target="conc", flavor="sched")]),
    "C13": dict(runs=[dict(target="cost", flavor="cov")]),
    "C14": dict(runs=both("reader")),
    "C15": dict(runs=both("reader")),
    "C16": dict(runs=both("reader")),
    "C17": dict(runs=both("stream")),
    "C18": dict(runs=both("stream")),
    "C19": dict(runs=both("response")),
    "C20": dict(runs=both("request")),
    "C21": dict(runs=both("request")),
    "C25": dict(runs=both("request")),
    "C22": dict(runs=both("weave")),
    "C23": dict(runs=both("weave")),
    "C24": dict(runs=both("weave")),
    "C26": dict(runs=both("types")),
    "C28": dict(runs=both("pipe")),
    "C30": dict(runs=both("lenient")),
    "C32": dict(runs=both("convert")),
    "C33": dict(runs=both("life")),
    "C34": dict(runs=both("node")),
    "C35": dict(runs=both("events")),
    "C31": dict(runs=both("registry")),
    "C36": dict(runs=both("indep") + [dict(target="indepconc", flavor="sched")]),
    "C37": dict(runs=[dict(target="flow", flavor="cov")]),
    "C29": dict(runs=[dict(target="transconc", flavor="sched")]),
    "C27": dict(runs=[dict(target="typeconc", flavor="sched")]),
}
