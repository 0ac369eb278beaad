"""Which configurations and families decide each property."""
LEVEL = "exploration"
ASSUMPTIONS = [
    "x86_64 and i686 run natively on Linux; RISC-V, LoongArch, ARM (A32) and AArch64 only in an interpreter of ours, without the unwind feature; Thumb, the other operating systems and their back ends not at all",
    "the reference (one operating system thread per coroutine, explicit hand-over) and the interpreter are trusted",
]
GENERAL_RULE = (
    "Cases are decoded from a tape of PRNG choices seeded by VERIF_SEED, configuration, family and index; "
    "[hist] cases are programs over the coroutine API run on corosensei and on the reference and compared event by event."
)
ALL8 = ["x64", "x64-rel", "x86", "x86-rel", "x64-nounw", "x64-nounw-rel", "x86-nounw", "x86-nounw-rel"]
UNW4 = ["x64", "x64-rel", "x86", "x86-rel"]
ASM = ["x64-asm", "x64-asm-rel"]
ASM3 = ASM + ["x86-asm-rel"]
NOUNW = ["x64-nounw", "x64-nounw-rel", "x86-nounw", "x86-nounw-rel", "x64-abort"]


def w(cs, scale=1.0):
    return [(c, scale) for c in cs]


PLAN = {
    "C01": dict(configs=w(ALL8 + ["x64-avx", *ASM]), heavy=["f-types"]),
    "C02": dict(configs=w(ALL8 + [*ASM])),
    "C03": dict(configs=w(ALL8 + ["x64-avx", *ASM3]), heavy=["f-kern", "f-lands"]),
    "C04": dict(configs=w(UNW4 + [*ASM3]) + w(NOUNW, 0.5), heavy=["f-lands"]),
    "C05": dict(configs=w(UNW4 + [*ASM3]), heavy=["f-lands"]),
    "C06": dict(configs=w(UNW4 + [*ASM3])),
    "C07": dict(configs=w(UNW4 + [*ASM3])),
    "C08": dict(configs=w(ALL8 + ["x64-avx", *ASM3]), heavy=["f-kern", "f-lands"]),
    "C09": dict(configs=w(UNW4 + [*ASM3, "x64-avx"]) + w(NOUNW, 0.5), heavy=["f-kern", "f-lands"]),
    "C10": dict(configs=w(ALL8 + ["x64-avx"]), heavy=["f-geom"]),
    "C11": dict(configs=w(["x64", "x64-rel", "x86", "x86-rel"])),
    "C12": dict(configs=w(ALL8 + [*ASM]), findings=["borrowed-stack-forgotten-coroutine"]),
    "C13": dict(configs=w(ALL8 + [*ASM3, "x64-avx"]), heavy=["f-trapf"]),
    "C14": dict(configs=w(ALL8 + [*ASM])),
    "C15": dict(configs=w(ALL8 + ["x64-fp", "x86-fp", *ASM3]), py=["gdb"],
                technique="model-based property testing of towers of contexts: unwinder, frame-pointer chain and GDB's backtraces against the frames the tower really has"),
    "C16": dict(configs=w(NOUNW)),
    "C17": dict(configs=w(ALL8 + [*ASM])),
    "C18": dict(configs=w(ALL8 + [*ASM3]), heavy=["f-exch"]),
    "C19": dict(configs=[], py=["client"], technique="grammar-based generation of client programs with accept/reject oracles and sound twins, decided by rustc against the current tree"),
    "C20": dict(configs=[], extra_builds=["x64", "x64-rel", "x64-nounw-rel", "x86", "x86-rel"], heavy=["f-types"], py=["valgrind"],
                technique="model-based property testing of stack histories under Valgrind: its registration log and Memcheck's verdict against a model of live stacks"),
}

for _p in "C01 C02 C03 C08 C09 C10 C12 C13 C14 C15 C17".split():
    # the back ends for other processors, interpreted
    PLAN[_p]["py"] = PLAN[_p].get("py", []) + ["foreign"]
for _p in "C11 C12 C13".split():
    # the stacks of Windows
    PLAN[_p]["py"] = PLAN[_p].get("py", []) + ["winstack"]

NOTE = ("Random search with shrinking against an explicit oracle; absence of failures is evidence over the generated cases, not proof. "
        "Trusts the reference model, the interpreters, rustc and the Linux process interface; x86_64 and i686 Linux natively, other processors only by interpretation and without unwinding, Windows on a model of its kernel.")
NOT_APPLICABLE = {}
