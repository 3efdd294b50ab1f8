"""Which builds and streams decide which property."""

PKGS = "github.com/henrydcase/nobs/...,mkem,vharness/cmd"

VARIANTS = {
    "default": {},
    "noasm": {"flags": ["-tags", "noasm"], "build_failure_is": "portable-build-broken"},
    "generic": {"flags": ["-tags", "noasm,appengine"]},
    "noasm386": {"flags": ["-tags", "noasm"], "env": {"GOARCH": "386", "CGO_ENABLED": "0"}},
    # never executed: its assembly functions are interpreted (harness/a64)
    "arm64": {"env": {"GOARCH": "arm64", "CGO_ENABLED": "0"}, "optional": True},
    "checkptr": {"flags": ["-gcflags=all=-d=checkptr"]},
    "race": {"flags": ["-race"], "env": {"CGO_ENABLED": "1"}},
    "race-noasm": {"flags": ["-race", "-tags", "noasm"], "env": {"CGO_ENABLED": "1"}},
    "cover-noasm": {"flags": ["-tags", "noasm", "-cover", "-covermode=atomic", "-coverpkg=" + PKGS], "overlay": False},
    "cover": {"flags": ["-cover", "-covermode=atomic", "-coverpkg=" + PKGS], "overlay": False},
}

ASSUME = [
    "the Go toolchain and runtime, the processor and the kernel behave as documented",
    "what was executed is a sample: a violation that needs an input outside the generated classes is not seen",
]

D = {"variant": "default"}


def every(scale):
    """The default build and, at a smaller scale, the other implementations."""
    r = [D, {"variant": "noasm", "scale": scale},
         {"variant": "default", "env": {"VERIF_CPU": "noadx"}, "scale": scale / 2},
         {"variant": "default", "env": {"VERIF_CPU": "nobmi2,noadx,noaes"}, "scale": scale / 2}]
    return r


ARM = {"variant": "default", "image": "arm64", "streams": ["arm64"]}
HASH = [D, {"variant": "noasm", "scale": 0.3}, {"variant": "generic", "scale": 0.3}]
PLANS = {
    "C01": {"runs": HASH},
    "C02": {"runs": HASH},
    "C03": {"runs": HASH},
    "C04": {"runs": [D, {"variant": "noasm", "scale": 0.2, "streams": ["chunked", "history", "lengths", "io-copy"]}]},
    "C05": {"runs": every(0.25) + [ARM]},
    "C06": {"runs": every(0.25)},
    "C08": {"runs": every(0.25)},
    "C09": {"runs": every(0.25)},
    "C10": {"runs": every(0.25)},
    "C11": {"runs": every(0.25)},
    "C12": {"runs": every(0.25)},
    "C13": {"runs": every(0.25)},
    "C14": {"runs": every(0.25)},
    "C15": {"runs": every(0.25)},
    "C16": {"runs": every(0.25)},
    "C17": {"runs": every(0.25)},
    "C18": {"runs": every(0.25)},
    "C19": {"runs": [D, {"variant": "noasm"}, {"variant": "noasm386", "may_not_run": True, "scale": 0.2}, ARM]},
    "C20": {"runs": [D, {"variant": "noasm"}, {"variant": "noasm386", "may_not_run": True, "scale": 0.2}]},
    "C24": {"runs": every(0.25)},
    "C25": {"runs": [D, {"variant": "noasm", "scale": 0.3}]},
    "C07": {"runs": [
        dict(D, compare="m"),
        {"variant": "default", "fakecpu": "noadx", "compare": "m", "scale": 0.5},
        {"variant": "default", "fakecpu": "nobmi2", "compare": "m", "scale": 0.5},
        {"variant": "default", "fakecpu": "nobmi2,noadx,noaes", "compare": "m"},
        {"variant": "default", "env": {"VERIF_CPU": "noadx"}, "compare": "m", "scale": 0.5},
        {"variant": "default", "env": {"VERIF_CPU": "nobmi2,noadx,noaes"}, "compare": "m", "scale": 0.5},
        {"variant": "noasm", "compare": "m"},
        {"variant": "noasm386", "compare": "m", "scale": 0.5, "may_not_run": True},
        {"variant": "generic", "compare": "m", "streams": ["hash"]},
        {"variant": "default", "prop": "C07x", "label": "cpu-features"},
    ]},
    "C21": {"runs": [
        {"variant": "race"},
        {"variant": "race-noasm", "streams": ["sidh-shared-keys", "csidh-shared-keys", "mix"], "scale": 0.4},
        {"variant": "default", "scale": 2},
    ], "parallel": 4},
    "C22": {"runs": [
        D,
        {"variant": "noasm", "scale": 0.3},
        {"variant": "checkptr", "scale": 0.5},
        ARM,
    ]},
    "C23": {"runs": [
        {"variant": "cover", "streams": ["derive", "decaps", "encaps"]},
        {"variant": "cover-noasm", "scale": 0.1, "streams": ["derive", "decaps", "encaps"]},
        {"variant": "default", "streams": ["instructions", "instructions-whole"], "casecpu": 3000},
        {"variant": "noasm", "streams": ["instructions"], "scale": 0.5, "casecpu": 3000},
        ARM,
    ]},
}

# Factors on the number of cases of the quick tier.
QUICK = {"C01": 5, "C02": 8, "C03": 6, "C05": 3, "C06": 7, "C08": 0.8, "C10": 2, "C11": 3, "C12": 5,
         "C13": 8, "C14": 0.8, "C16": 5, "C18": 1.5, "C19": 1.5, "C22": 2.5, "C24": 2}
