"""What each check runs."""

QEMU_ENV = {"GODEBUG": "asyncpreemptoff=1"}

# Builds of the library.
CONFIGS = {
    # amd64 with cgo; SHA-NI code if the processor has it
    "native": {"env": {"CGO_ENABLED": "1", "CC": "gcc", "GOARCH": "amd64"}},
    # the same under emulation, only where the processor has no SHA-NI
    "shani": {"env": {"CGO_ENABLED": "1", "CC": "gcc", "GOARCH": "amd64"}, "runner": ["qemu-x86_64", "-cpu", "max"],
              "run_env": QEMU_ENV, "unless_cpu": "sha_ni"},
    # a processor without SHA-NI: the run-time choice falls on portable code
    "nosha": {"env": {"CGO_ENABLED": "0", "GOARCH": "amd64"}, "runner": ["qemu-x86_64", "-cpu", "Nehalem"], "run_env": QEMU_ENV},
    # one with SHA-NI but without AVX, which the assembly code needs as well
    "noavx": {"env": {"CGO_ENABLED": "0", "GOARCH": "amd64"}, "runner": ["qemu-x86_64", "-cpu", "Denverton"], "run_env": QEMU_ENV},
    # portable code, and the fallback of the cgo package
    "noasm": {"env": {"CGO_ENABLED": "0", "GOARCH": "amd64"}, "tags": "noasm"},
    # the switch to portable code that the library's tests use
    "forced": {"env": {"CGO_ENABLED": "0", "GOARCH": "amd64"}, "tags": "forcegeneric"},
    "arm64-forced": {"env": {"CGO_ENABLED": "0", "GOARCH": "arm64"}, "tags": "forcegeneric",
                     "runner": ["qemu-aarch64", "-cpu", "max"], "run_env": QEMU_ENV},
    "arm64": {"env": {"CGO_ENABLED": "1", "CC": "aarch64-linux-gnu-gcc", "GOARCH": "arm64"},
              "runner": ["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"], "run_env": QEMU_ENV},
    "arm64-noasm": {"env": {"CGO_ENABLED": "0", "GOARCH": "arm64"}, "tags": "noasm",
                    "runner": ["qemu-aarch64", "-cpu", "max"], "run_env": QEMU_ENV},
    # others
    "mips": {"env": {"CGO_ENABLED": "0", "GOARCH": "mips"}, "runner": ["qemu-mips"], "run_env": QEMU_ENV},
    "ppc64le": {"env": {"CGO_ENABLED": "0", "GOARCH": "ppc64le"}, "runner": ["qemu-ppc64le", "-cpu", "power9"], "run_env": QEMU_ENV},
    "riscv64": {"env": {"CGO_ENABLED": "0", "GOARCH": "riscv64"}, "runner": ["qemu-riscv64"], "run_env": QEMU_ENV},
    # 32 bits
    "arm": {"env": {"CGO_ENABLED": "1", "CC": "arm-linux-gnueabihf-gcc", "GOARCH": "arm"},
            "runner": ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"], "run_env": QEMU_ENV},
    "386": {"env": {"CGO_ENABLED": "0", "GOARCH": "386"}},
    # big-endian
    "s390x": {"env": {"CGO_ENABLED": "0", "GOARCH": "s390x"}, "runner": ["qemu-s390x"], "run_env": QEMU_ENV},
    "race": {"env": {"CGO_ENABLED": "1", "CC": "gcc", "GOARCH": "amd64"}, "flags": ["-race"],
             "run_env": {"GORACE": "halt_on_error=1 exitcode=66"}},
    "race-noasm": {"env": {"CGO_ENABLED": "1", "CC": "gcc", "GOARCH": "amd64"}, "flags": ["-race"], "tags": "noasm",
                   "run_env": {"GORACE": "halt_on_error=1 exitcode=66"}},
}

ALL = ["C%02d" % i for i in range(1, 19)]
OBJECT = ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C16", "C18"]

# Runs of TLC on the specification alone.
SPEC_RUNS = {
    "quick": [
        {"module": "MCDigest", "cfg": "MCDigest1.cfg", "props": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C16", "C17", "C18", "C12"]},
        {"module": "MCDigest", "cfg": "MCDigest2.cfg", "props": ["C08", "C13"]},
        {"module": "MCDigest", "cfg": "MCDigest3.cfg", "props": ["C06", "C08", "C09", "C10", "C11"]},
        {"module": "MCDigest", "cfg": "MCWitness.cfg", "props": ["C03", "C06"], "violates": "SomePadOnly"},
        {"module": "MCConc", "cfg": "MCConc.cfg", "props": ["C13", "C17"]},
        {"module": "MCConc", "cfg": "MCConcInPlace.cfg", "props": ["C13", "C07"], "violates": "NoRace|NoneWrong|AtRest"},
        {"module": "MCConc", "cfg": "MCConcScratch.cfg", "props": ["C13"], "violates": "NoRace|NoneWrong"},
        {"module": "MCConc", "cfg": "MCConcCache.cfg", "props": ["C13"], "violates": "NoRace"},
        {"module": "MCConc", "cfg": "MCConcSwap.cfg", "props": ["C13", "C17"], "violates": "NoRace|BufsKept"},
        {"apalache": "Length64", "inv": "Quick", "props": ["C16"]},
        {"module": "MCInit", "cfg": "MCInitStatic.cfg", "props": ["C13", "C15"]},
        {"module": "MCInit", "cfg": "MCInitLazy.cfg", "props": ["C13"], "violates": "NoRace|NoneMissed|TableFull"},
        {"module": "MCInit", "cfg": "MCInitTrylock.cfg", "props": ["C13"], "violates": "NoneMissed"},
        {"module": "MCInit", "cfg": "MCInitFront.cfg", "props": ["C13", "C15"], "violates": "NoRace|NoneMissed|TableFull"},
        {"module": "MCBlock", "cfg": "MCBlockGeneric.cfg", "props": ["C03", "C04", "C05", "C12"]},
        {"module": "MCBlock", "cfg": "MCBlockAsm.cfg", "props": ["C03", "C05", "C12"]},
        {"module": "MCBlock", "cfg": "MCBlockC.cfg", "props": ["C03", "C05", "C12"]},
        {"module": "MCBlock", "cfg": "MCBlockUndo58.cfg", "props": ["C03"], "violates": "Right|Prefix"},
        {"module": "MCBlock", "cfg": "MCBlockFirst.cfg", "props": ["C03"], "violates": "Right|Prefix"},
        {"module": "MCBlock", "cfg": "MCBlockNobreak.cfg", "props": ["C05"], "violates": "Right|Bounded|Prefix"},
        {"module": "MCBlock", "cfg": "MCBlockCount.cfg", "props": ["C05"], "violates": "Right|Prefix"},
    ],
}
SPEC_RUNS["thorough"] = SPEC_RUNS["quick"] + [
    {"module": "MCDigest", "cfg": "MCDigestBig1.cfg", "props": OBJECT + ["C04", "C12"], "workers": 6, "heap": "10g", "timeout": 7200},
    {"module": "MCDigest", "cfg": "MCDigestBig2.cfg", "props": ["C06", "C07", "C08", "C09", "C10", "C11", "C13"], "workers": 6, "heap": "10g", "timeout": 7200},
    {"module": "MCConc", "cfg": "MCConcDeep.cfg", "props": ["C13", "C17"], "timeout": 3600},
    {"module": "MCConc", "cfg": "MCConc3.cfg", "props": ["C13", "C17"], "heap": "10g", "workers": 6, "timeout": 7200},
    {"module": "MCInit", "cfg": "MCInitOnce.cfg", "props": ["C13"]},
    {"module": "MCInit", "cfg": "MCInitEarly.cfg", "props": ["C13"], "violates": "NoRace|NoneMissed|TableFull"},
    {"module": "MCInit", "cfg": "MCInitStatic3.cfg", "props": ["C13", "C15"]},
    {"module": "MCInit", "cfg": "MCInitOnce3.cfg", "props": ["C13"]},
    {"module": "MCBlock", "cfg": "MCBlockUnrectified.cfg", "props": ["C03"], "violates": "Right|Prefix"},
    {"module": "MCBlock", "cfg": "MCBlockStale.cfg", "props": ["C03"], "violates": "Right|Prefix"},
    {"module": "MCBlock", "cfg": "MCBlockOnce.cfg", "props": ["C05"], "violates": "Right|Prefix"},
    {"module": "MCBlock", "cfg": "MCBlockRekeep.cfg", "props": ["C05"], "violates": "Right|Bounded|Prefix"},
    {"module": "MCBlock", "cfg": "MCBlockBig.cfg", "props": ["C03", "C04", "C05", "C12"], "workers": 6, "heap": "10g", "timeout": 3600},
    {"apalache": "Length64", "inv": "Bits", "props": ["C16"], "timeout": 1200},
    {"apalache": "Length64", "inv": "Adds", "props": ["C16"], "timeout": 3600},
]


def times(fams, k):
    """k times as many of all that are quickly run."""
    out = []
    for f in fams.split(","):
        name, _, n = f.partition(":")
        slow = name in ("large", "drip", "crowd", "hot", "many", "deep", "masks", "tail")
        out.append(f if not n or slow else "%s:%d" % (name, min(int(int(n) * k), 17500)))
    return ",".join(out)


def spread(full, small, tiny=None, thorough=None):
    """Family counts per build: `full' natively, `small' under emulation."""
    q = {"native": times(full, 3), "noasm": times(full, 2), "shani": times(small, 2), "arm64": times(small, 2)}
    if tiny:
        q["arm"] = times(tiny, 2)
    t = {}
    big = thorough or full
    for c in ("native", "noasm"):
        t[c] = big
    for c in ("shani", "arm64", "arm", "386", "s390x", "nosha"):
        t[c] = full
    return {"quick": q, "thorough": t}


def budget(q, t=None):
    return {"quick": q, "thorough": t or 10 * q}


ENC = "TLC's evaluation of the SHA-1 rounds, bit conditions and table in spec/ (checked against FIPS vectors and recorded attacks)"
BUILDS = "the builds that ran are those listed; other architectures are not observed"
ARMED = ("blocks for which no real attack is known are made recognisable by substituting the table's message "
         "difference in the running process; the table itself is compared entry by entry")

PLAN = {}


def far(focus, mode="concrete"):
    """Attack blocks after very long beginnings."""
    return {"mode": mode, "focus": focus, "budget": budget(300), "shards": 1, "stall": 300, "procs": 8, "timeout": 800,
            "run": {"quick": {"native": "bhit:17+65+513", "noasm": "bhit:17+65"},
                    "thorough": {"native": "bhit:1+17+65+127+128+257+513+1025+2049+4097", "noasm": "bhit:17+65+513+4097", "386": "bhit:65+513",
                                 "arm64": "bhit:65"}}}


def huge(focus, mode="ideal", q="513", t="511+513+2047+2049+4095+4097"):
    """Single writes and sums in one call of more than 31 and 32 bits can count."""
    return {"mode": mode, "focus": focus, "budget": budget(300), "shards": 1, "stall": 300, "procs": 8, "timeout": 800,
            "run": {"quick": {"native": "single:" + q}, "thorough": {"native": "single:" + t, "noasm": "single:513+4097", "386": "single:513"}}}

# C01: SHA-1 on clean messages.
PLAN["C01"] = {"assumptions": [ENC, BUILDS], "parts": [
    {"mode": "concrete", "focus": "outF", "budget": budget(1500, 12000), "shards": 3,
     "run": spread("plain:1400,extreme:600,cond:128,hist1:800,attacks:40,large:14,split:64,craft:130,drip:8", "plain:260,extreme:80,cond:32,hist1:100,large:6,split:8,craft:65",
                   "plain:200,extreme:40", "plain:4000,extreme:4000,cond:640,hist1:6000,attacks:200,large:60,split:256,craft:1300,drip:24")},
    far("outF")]}

# C02: chunking.
PLAN["C02"] = {"assumptions": [BUILDS], "parts": [
    {"mode": "ideal", "focus": "out,col", "budget": budget(20000, 200000), "shards": 3,
     "run": spread("plain:1200,large:40,hist1:1600,hits:384,kin:192,attacks:100,padhits:120,split:64,deep:64,drip:8,craft:130,many:8,tail:9", "plain:260,large:6,hist1:200,hits:96,attacks:20,split:16",
                   "plain:200,hist1:60,hits:32", "plain:8000,large:120,hist1:17500,hits:3200,kin:1600,attacks:400,padhits:1000,split:512,deep:300,drip:24,craft:1300,many:60,tail:60")},
    huge("out,col", q="4097")]}

# C03: every listed attack is reported.
PLAN["C03"] = {"assumptions": [ENC, ARMED, BUILDS], "parts": [
    {"mode": "concrete", "focus": "colT", "budget": budget(1500, 12000), "shards": 3,
     "run": spread("hits:1280,kin:384,padhits:288,attacks:160,hist1:2000,random:300,craft:130,dvs,masks:1,twice:128,deep:26,split:32,many:12,tail:9",
                   "hits:192,kin:96,padhits:48,attacks:24,hist1:150,dvs,masks:1,twice:32,many:3", "hits:96,attacks:8,dvs,masks:1",
                   "hits:6400,kin:3200,padhits:2400,attacks:600,hist1:17500,random:3000,craft:1300,dvs,masks:10,twice:1000,deep:200,split:128,many:100,tail:60")},
    far("colT")]}

# C04: nothing else is.
PLAN["C04"] = {"assumptions": [ENC, ARMED, BUILDS], "parts": [
    {"mode": "concrete", "focus": "colF", "budget": budget(1500, 12000), "shards": 3,
     "run": spread("near:1920,kin:384,padnear:480,cond:512,plain:600,attacks:120,hist1:1200,extreme:200,twice:256,craft:65", "near:320,kin:96,padnear:96,cond:64,plain:100,attacks:16,hist1:100,twice:32",
                   "near:160,padnear:48,cond:32,plain:60", "near:12800,kin:3200,padnear:4800,cond:6400,plain:4000,attacks:600,hist1:17500,extreme:4000,twice:1000,craft:1300")},
    far("colF")]}

# C05: the safe hash.
PLAN["C05"] = {"assumptions": [ENC, ARMED, BUILDS], "parts": [
    {"mode": "concrete", "focus": "outT", "budget": budget(1500, 12000), "shards": 3,
     "run": spread("hits:1280,kin:384,padhits:288,attacks:160,pairs,hist1:2000,random:300,twice:128,deep:26,split:32,many:12,craft:65,tail:9", "hits:192,kin:96,padhits:48,attacks:24,pairs,hist1:150,twice:32",
                   "hits:96,attacks:8,pairs", "hits:6400,kin:3200,padhits:2400,attacks:600,pairs,hist1:17500,random:3000,twice:1000,deep:200,split:128,many:100,craft:1300,tail:60")},
    far("outT")]}

# C06: life of the flag.
PLAN["C06"] = {"assumptions": [ENC, ARMED, BUILDS], "parts": [
    {"mode": "concrete", "focus": "col", "budget": budget(1500, 12000), "shards": 3,
     "run": spread("hist1:4000,hist2:1200,random:400,padhits:192,ckpt:300,resets:300,sums:200,attacks:40,many:12,craft:195,tail:12",
                   "hist1:250,hist2:80,random:60,padhits:48,ckpt:60,resets:50", "hist1:60,random:20,resets:20",
                   "hist1:17500,hist2:10600,random:4000,padhits:2400,ckpt:2000,resets:2000,sums:2000,attacks:400,many:100,craft:1300,tail:90")},
    far("col")]}

# C07: sums only look.
PLAN["C07"] = {"assumptions": [ARMED, BUILDS], "parts": [
    {"mode": "ideal", "focus": "out,col,blob", "budget": budget(20000, 200000), "shards": 3,
     "run": spread("sums:1000,hist1:2400,hist2:600,random:500,padhits:192,drip:8,craft:130,many:6,tail:5", "sums:120,hist1:150,random:60,padhits:48",
                   "sums:40,hist1:40", "sums:6000,hist1:17500,hist2:10600,random:4000,padhits:2400,drip:24,craft:1300,many:60,tail:40")}]}

# C08: reset.
PLAN["C08"] = {"assumptions": [ARMED, BUILDS], "parts": [
    {"mode": "ideal", "focus": "out,col,blob", "budget": budget(20000, 200000), "shards": 3,
     "run": spread("resets:1200,hist1:2400,random:500,padhits:120,craft:130,many:6,drip:8,crowd:2,tail:6", "resets:150,hist1:150,random:60,padhits:24",
                   "resets:40,hist1:40", "resets:8000,hist1:17500,random:4000,padhits:1000,craft:1300,many:60,drip:24,crowd:20,tail:40")}]}

# C09: checkpoints.
PLAN["C09"] = {"assumptions": [ARMED, BUILDS], "parts": [
    {"mode": "ideal", "focus": "out,col,err,blob", "budget": budget(20000, 200000), "shards": 3, "backends": "go",
     "run": spread("ckpt:1600,hist1:2400,hist2:1600,random:500,craft:260,padhits:120,many:6,tail:6", "ckpt:200,hist1:150,hist2:60,random:60,craft:65",
                   "ckpt:60,hist1:40,craft:20", "ckpt:8000,hist1:17500,hist2:10600,random:4000,craft:1300,padhits:1000,many:60,tail:40")}]}

# C10: malformed checkpoints.
PLAN["C10"] = {"assumptions": [BUILDS], "parts": [
    {"mode": "ideal", "focus": "out,col,err,blob", "budget": budget(20000, 200000), "shards": 3, "backends": "go",
     "run": spread("bad:1400,hist1:1600,random:400,craft:520", "bad:200,hist1:100,craft:65", "bad:200,craft:65",
                   "bad:8000,hist1:17500,random:4000,craft:2600")}]}

# C11: what a checkpoint looks like.
PLAN["C11"] = {"assumptions": [ENC, ARMED, BUILDS], "parts": [
    {"mode": "concrete", "focus": "blob", "budget": budget(1500, 12000), "shards": 3, "backends": "go",
     "run": spread("ckpt:1200,hist1:1600,sums:300,resets:300,random:400,craft:260,drip:4,many:6,tail:4", "ckpt:200,hist1:100,craft:65", "ckpt:60,craft:65",
                   "ckpt:6000,hist1:17500,sums:2000,resets:2000,random:4000,craft:2600,tail:40")}]}

# C12: all builds and both packages agree.
_x = "plain:230,extreme:80,hits:192,kin:64,near:160,padnear:48,padhits:60,attacks:24,hist1:200,hist2:60,random:60,ckpt:100,craft:65,bad:60,large:3,masks:1,consts,twice:32,split:8,deep:12,many:3,shots:20,tail:1"
_X = "plain:1000,extreme:600,hits:960,kin:640,near:960,padnear:400,padhits:400,attacks:120,hist1:2000,hist2:600,random:600,ckpt:400,craft:260,bad:200,large:8,masks:4,consts,twice:320,split:64,deep:48,many:12,drip:4,shots:100,tail:9"
_C = [(" ".join([o, a] + ([t] if t else [])), {"CGO_ENABLED": "0", "GOOS": o, "GOARCH": a}, t) for o, a, t in (
    ("linux", "amd64", "noasm"), ("linux", "arm64", "noasm"), ("windows", "amd64", ""), ("darwin", "arm64", ""))]
_CT = _C + [(" ".join([o, a]), {"CGO_ENABLED": "0", "GOOS": o, "GOARCH": a}, "") for o, a in (
    ("freebsd", "amd64"), ("windows", "arm64"), ("linux", "mips"), ("linux", "mips64le"), ("linux", "ppc64"), ("linux", "riscv64"), ("linux", "loong64"),
    ("js", "wasm"))]
PLAN["C12"] = {"assumptions": [ARMED, BUILDS], "compile": {"quick": _C, "thorough": _CT}, "parts": [
    {"mode": "cross", "focus": "out,col,n,err,blob", "budget": budget(60000, 400000), "shards": 4,
     "run": {"quick": {c: _x for c in ("native", "shani", "noasm", "arm64", "arm", "386", "s390x", "nosha", "noavx", "forced", "arm64-forced", "arm64-noasm")},
             "thorough": {c: _X for c in ("native", "shani", "nosha", "noavx", "arm64-noasm", "mips", "ppc64le", "riscv64", "noasm", "arm64", "arm", "386", "s390x", "forced", "arm64-forced")}}}]}

# C13: isolation.
PLAN["C13"] = {"assumptions": [ARMED, BUILDS, "schedules are those that the Go scheduler produced; the race detector reports unsynchronised accesses on any of them"], "parts": [
    {"mode": "ideal", "focus": "out,col,blob", "budget": budget(20000, 200000), "shards": 3,
     "run": {"quick": {"race": "first,hot:1,crowd:1,par:60,hist2:300,random:60", "race-noasm": "first,hot:1,par:40", "native": "first,hot:8,crowd:4,shots:60,par:150,twice:64,kin:192,hist2:1500,random:300", "noasm": "hot:4,crowd:2,par:80,hist2:300", "arm64": "par:10,hist2:60"},
             "thorough": {"race": "first,par:1500,hist2:3000,random:600", "race-noasm": "first,par:1000,hist2:500", "native": "first,hot:200,crowd:80,shots:600,par:5000,twice:640,kin:1000,hist2:10600,random:4000", "noasm": "hot:100,par:2000,hist2:5000",
                          "arm64": "par:200,hist2:600", "arm": "par:50,hist2:100"}}}]}

# C14: the unavoidable bit conditions.
PLAN["C14"] = {"assumptions": [ENC, BUILDS, "the conditions are those published with the reference implementation"], "parts": [
    {"mode": "concrete", "focus": "", "budget": budget(1500, 12000), "shards": 4,
     "run": spread("masks:25", "masks:4", "masks:3", "masks:400")}]}

# C15: the table.
PLAN["C15"] = {"assumptions": [ENC, BUILDS], "parts": [
    {"mode": "concrete", "focus": "", "budget": budget(1500), "shards": 2, "run": spread("dvs", "dvs", "dvs", "dvs")}]}

# C16: long messages.
PLAN["C16"] = {"assumptions": [ENC, BUILDS, "for messages of 32 KiB and more the state before the last blocks is the standard library's"], "parts": [
    {"mode": "concrete", "focus": "out", "budget": budget(1200, 8000), "shards": 3,
     "run": spread("craft:520,plain:150", "craft:195,plain:100", "craft:195,plain:100", "craft:6500,plain:2000")},
    {"mode": "concrete", "focus": "out", "budget": budget(300), "shards": 1, "stall": 300, "procs": 8, "timeout": 800,
     "run": {"quick": {"native": "bulk:513+4097,single:4097", "noasm": "bulk:513", "386": "bulk:4097"},
             "thorough": {"native": "bulk:511+512+513+2049+4095+4097+8193,single:511+513+2047+2049+4095+4097+8193", "noasm": "bulk:511+513+4097", "386": "bulk:513+4097", "arm64": "bulk:513"}}},
    far("out")]}

# C17: memory and conventions.
PLAN["C17"] = {"assumptions": [BUILDS], "parts": [
    {"mode": "ideal", "focus": "mem,n,out,col", "budget": budget(20000, 200000), "shards": 3,
     "run": spread("plain:800,hist1:1600,ckpt:400,random:500,hits:192,sums:200,attacks:40,large:6,padhits:80,bad:120,craft:130,masks:1,tail:5", "plain:200,hist1:100,ckpt:60,random:60,hits:32",
                   "plain:100,hist1:30", "plain:4000,hist1:17500,ckpt:2000,random:4000,hits:960,sums:1000,attacks:200,large:30,padhits:1000,bad:600,craft:1300,tail:40")},
    {"mode": "concrete", "focus": "n", "budget": budget(300), "shards": 1,
     "run": spread("consts,plain:60,random:60,hist1:60", "consts,plain:30,random:10", "consts,plain:10")},
    huge("n", "concrete", q="4097")]}

# C18: hashing in one call.
PLAN["C18"] = {"assumptions": [ARMED, BUILDS], "parts": [
    {"mode": "ideal", "focus": "out,col", "budget": budget(20000, 200000), "shards": 3,
     "run": spread("shots:250,padnear:96,plain:1600,hits:640,near:320,padhits:288,attacks:160,large:30,extreme:120,twice:128,deep:48,many:8,tail:9", "shots:30,plain:260,hits:96,near:64,padhits:48,attacks:24,large:4",
                   "shots:20,plain:100,hits:32", "shots:2500,padnear:960,plain:8000,hits:3200,near:1600,padhits:2400,attacks:600,large:60,extreme:600,twice:640,deep:300,many:60,tail:60")},
    huge("out,col", q="513+4097")]}
