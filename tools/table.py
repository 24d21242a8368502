"""What each property's check runs."""

COMMON = [
    "rustc 1.99.1 (opt-level 1, overflow checks on, panic = abort) compiles the crate to the IR that is executed; the engine (/verif/engine) and z3/cvc5 are trusted",
    "violations are reported only after the same values fail natively; sampled witnesses are run natively as a check of the encoding",
]

ENTRIES = {
    "vp_c01": {"what": "one ISA instruction then halt, every opcode byte of the ISA", "reach": [1, 2]},
    "vp_c02": {"what": "seq_std: prelude, one instruction, then jXX or halt", "reach": [1, 2, 3, 4]},
    "vp_c03": {"what": "seq_plus_std: prelude, one instruction, then jXX or halt", "reach": [1, 2, 3, 4]},
    "vp_c04_pair": {"what": "pipe_std: every pair of instruction kinds back to back", "reach": [1, 2]},
    "vp_c04_gap": {"what": "pipe_std: producer and consumer one to three instructions apart", "reach": [1, 2]},
    "vp_c04_stack": {"what": "pipe_std: stack pointer set by any means, then used at distance 0 to 3", "reach": [1, 2]},
    "vp_c04_shadow": {"what": "pipe_std: arbitrary instructions behind halt, ret and jumps, at the target of a jump not taken", "reach": [1, 2]},
    "vp_c04_one": {"what": "pipe_std: one instruction at any address, up to the end of memory", "reach": [1, 2]},
    "vp_c04_triple": {"what": "pipe_std: every triple of instruction kinds", "reach": [1, 2], "ob_time": 60},
    "vp_c05_fetch": {"what": "fetches beyond memory or cut off at its end, all three processors", "reach": [1]},
    "vp_c05_fault": {"what": "opcodes that do not exist, data beyond memory, all three processors", "reach": [1]},
    "vp_c05_any": {"what": "every opcode and register byte on all three processors: no abort", "reach": [1]},
    "vp_c06": {"what": "ISA simulator: every opcode byte, any fields, data address in or out of range, cut off at the end of memory", "reach": [1, 2]},
    "vp_c06_pc": {"what": "ISA simulator: program counter beyond memory", "reach": [1, 2]},
    "vp_c08_any4": {"what": "parse_literal on every string of up to 4 bytes", "reach": [1]},
    "vp_c08_any6": {"what": "parse_literal on every string of up to 6 bytes", "reach": [1]},
    "vp_c08_dec": {"what": "parse_literal on decimal strings", "reach": [1]},
    "vp_c08_hex": {"what": "parse_literal on hexadecimal strings", "reach": [1]},
    "vp_c08_bad": {"what": "parse_literal on malformed strings", "reach": [1]},
    "vp_c07": {"what": "one line: every mnemonic, operand and spacing form", "reach": [1]},
    "vp_c09_two": {"what": "every program of two items with labels around them", "reach": [1]},
    "vp_c09_three": {"what": "every program of three items with labels around them", "reach": [1]},
    "vp_c09_names": {"what": "references to labels with arbitrary two-letter names, defined or not", "reach": [1, 2]},
    "vp_c10_num": {"what": "numerals that do not fit, in every place", "reach": [1]},
    "vp_c10_addr": {"what": ".pos to anywhere, then an item of any size", "reach": [1]},
    "vp_c10_align": {"what": ".align to anything from anywhere", "reach": [1]},
    "vp_c10_any4": {"what": "four arbitrary characters behind the beginning of a line", "reach": [1]},
    "vp_c10_any5": {"what": "five arbitrary characters behind the beginning of a line", "reach": [1]},
    "vp_c11": {"what": "listing of two lines of any kind, loaded by the ISA runner", "reach": [1]},
    "vp_c11_addr": {"what": "listing of one byte at any four-digit address, loaded by the ISA runner", "reach": [1]},
    "vp_c16_alu": {"what": "ALU functions and condition codes", "reach": [1]},
    "vp_c16_cmp": {"what": "condition evaluation", "reach": [1]},
}
PRELUDE = "initial state: all 15 registers and the condition codes arbitrary (set by a 19-instruction prelude at addresses 0..180), all other memory bytes arbitrary (64 KiB array)"
PROPS = {
    "C01": {"quick": ["vp_c01"], "explain": "isa::simulate against an independent statement of the ISA.",
            "bounds": [PRELUDE, "one instruction (any well-formed encoding, iaddq family included) at any address >= 181, then halt", "data accesses anywhere in memory (ret: return address stored at or above 181, instruction at 0x2000)", "jump/call/ret targets anywhere in [181, 65535]"],
            "assumptions": COMMON},
    "C02": {"quick": ["vp_c02"], "explain": "seq_std, cycle by cycle, against the ISA statement.",
            "bounds": [PRELUDE, "one instruction (any well-formed encoding) at any address >= 181, then jXX with any condition and target or halt, then halt", "ret: instruction at 0x2000, return address stored anywhere at or above 181"],
            "assumptions": COMMON},
    "C03": {"quick": ["vp_c03"], "explain": "seq_plus_std, cycle by cycle, against the ISA statement.",
            "bounds": [PRELUDE, "one instruction (any well-formed encoding) at any address >= 181, then jXX with any condition and target or halt, then halt", "ret: instruction at 0x2000, return address stored anywhere at or above 181"],
            "assumptions": COMMON},
    "C04": {"quick": ["vp_c04_pair", "vp_c04_stack", "vp_c04_shadow", "vp_c04_one", "vp_c04_gap"], "thorough": ["vp_c04_triple"],
            "explain": "pipe_std, run to its end, against the ISA statement.",
            "bounds": [PRELUDE, "pairs: all 11 instruction kinds (jumps taken, not taken with a target in or beyond memory; four OPq) at 0x100, any registers and operands, then halt; thorough: triples",
                       "data at 0x3000 or above, initial stack pointer in [0x4000, 0x7f00]; programs that overwrite their own next instructions are outside",
                       "one instruction at any address in [181, end of memory]", "the processor has to stop within 4 cycles per instruction plus 9"],
            "assumptions": COMMON},
    "C05": {"quick": ["vp_c05_fetch", "vp_c05_fault", "vp_c05_any"],
            "explain": "the three processors on instructions that cannot be executed.",
            "bounds": [PRELUDE, "fetch address anywhere in [65536, 2^64) (the last 100 addresses: four of them)", "instructions cut off by the end of memory at every offset", "data addresses anywhere in [65529, 2^64)",
                       "behind the instruction: three stores, pushes, calls or OPq", "stop within 1 cycle (seq) or 8 cycles (pipe)", "opcode functions outside the ISA (e.g. OPq 9) only have to not abort"],
            "assumptions": COMMON},
    "C06": {"quick": ["vp_c06", "vp_c06_pc"], "explain": "isa::simulate returns Ok or Err as the ISA says and never aborts.",
            "bounds": [PRELUDE, "one instruction: all 256 opcode bytes, all register bytes, any address in [181, 2^64)", "reserved register fields and condition functions >= 7: only the absence of an abort is asserted"],
            "assumptions": COMMON},
    "C08": {"quick": ["vp_c08_any4", "vp_c08_dec", "vp_c08_hex", "vp_c08_bad"], "thorough": ["vp_c08_any6"], "explain": "utils::parse_literal against a definition of the literal syntax.",
            "bounds": ["strings of any bytes up to length 4 (thorough: 6)", "decimal and hexadecimal numerals up to the lengths stated in DESIGN.md", "strings containing '+' are outside the property"],
            "assumptions": COMMON},
    "C07": {"quick": ["vp_c07"], "explain": "assemble on one line of source text against the encoding table of the ISA.",
            "bounds": ["every mnemonic (iaddq family included), all 15 registers in every operand place (canonical spacing; two registers in the other spacings)",
                       "constants: decimal of 1 or 6 digits, hexadecimal of 1, 15 or 16 digits (digits, a-f, A-F), with and without sign; labels at any address of 8 hexadecimal digits 0-9",
                       "address of the line: any three-digit hexadecimal .pos", "three spacings: canonical, a blank or tab wherever one is allowed, none and a comment of three arbitrary ASCII characters",
                       "one arbitrary byte of the whole image is compared"],
            "assumptions": COMMON},
    "C09": {"quick": ["vp_c09_two", "vp_c09_names"], "thorough": ["vp_c09_three"], "explain": "assemble on programs of several items against the location counter rule.",
            "bounds": ["two (thorough: three) items out of 13: instructions of 1, 2, 9, 10 bytes, .byte/.word/.long/.quad with arbitrary hexadecimal digits, negative .word, .quad of a label, .pos anywhere (4 digits 0-9), .align 1/2/8/64/4096, nothing",
                       "labels before, between and behind the items, referenced forwards and backwards; start anywhere (4 digits 0-9)", "references: label names of two characters of arbitrary letters, digits, underscore, defined or not",
                       "one arbitrary byte of the whole image is compared, and the whole symbol table", "values that do not fit their datum and duplicate labels are outside"],
            "assumptions": COMMON},
    "C10": {"quick": ["vp_c10_any4", "vp_c10_num", "vp_c10_addr", "vp_c10_align", "vp_c09_names"], "thorough": ["vp_c10_any5"], "explain": "assemble on bad source text: an error, never an abort.",
            "bounds": ["four (thorough: five) arbitrary ASCII characters, or one two-byte character among them, behind 14 beginnings of a line", "numerals too long or too large in ten places",
                       ".pos of 4 or 16 hexadecimal digits, negative, around 65536 and 2^63, then an item of 0 to 10 bytes", ".align by any number of up to 4 or 16 digits from any address of 3 or 16 digits"],
            "assumptions": COMMON},
    "C11": {"quick": ["vp_c11", "vp_c11_addr"], "explain": "Display of ObjectExt, read back by main() of sim/src/bin/yis.rs (command line, file and simulator replaced).",
            "bounds": ["two items of ten kinds (instructions, data with symbolic digits, labels, .align, a comment of two arbitrary characters)", "start at one of four addresses with one symbolic digit; single bytes at any address of four digits (0-9, a-f, or alternating)", "one arbitrary byte of the whole image is compared"],
            "assumptions": COMMON},
    "C16": {"quick": ["vp_c16_alu", "vp_c16_cmp"], "explain": "ALU and condition-code functions for all operands.",
            "bounds": ["all 64-bit operands, all functions"], "assumptions": COMMON},
}
NOT_APPLICABLE = {}
HOOKS = None
# cargo features of the harness that each property needs
FEATURES = {"C01": "isa", "C02": "cpu", "C03": "cpu", "C04": "pipe", "C05": "fault", "C06": "isa", "C07": "asm", "C08": "lit", "C09": "asm", "C10": "asm", "C11": "yo", "C16": "alu"}
