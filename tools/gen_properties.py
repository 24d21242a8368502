#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "ISA simulator executes every Y86-64 instruction as the ISA defines it",
  "From any register file, condition codes, memory and in-range program counter, executing one well-formed Y86-64 instruction (including the iopq extension) in the ISA simulator yields exactly the registers, condition codes, memory, program counter and instruction count that the Y86-64 ISA defines, and changes nothing else. Address arithmetic is modulo 2^64, as is register arithmetic.",
  ["inputs", "programs"], "every machine state x every well-formed instruction (all opcodes, functions, register pairs, 64-bit immediates)",
  "The tests run a handful of fixed programs; a wrong flag, a wrong operand order for one register pair (e.g. pushq %rsp, popq %rsp, rA=rB), or a wrong byte of a 64-bit value needs specific operands.",
  ["sim/src/isa.rs", "sim/src/utils.rs"],
  [("fetch/decode/execute loop", "isa::simulate"), ("ALU and condition codes", "isa::arithmetic_compute, isa::ConditionCode"), ("little-endian access", "utils::get_u64, utils::put_u64")],
  [("StandardResult", "final memory, cc, registers, pc, instruction count", "sim/src/isa.rs")], ["isa::simulate"])
p("C02", "seq_std executes each instruction exactly as the ISA, one per cycle",
  "For every program state and every well-formed base instruction, one clock cycle of the seq_std processor changes registers and memory exactly as the Y86-64 ISA prescribes and continues at the instruction the ISA prescribes, and a halt instruction terminates it in the cycle that executes it.",
  ["inputs", "programs"], "every machine state x every well-formed base instruction; next instruction arbitrary",
  "Differential tests run a few dozen fixed programs with fixed values; a signal selected wrongly for one opcode/condition/register combination survives them.",
  ["sim/src/architectures/builtin/seq_std.rs", "sim/src/architectures/hardware_seq.rs", "sim/src/framework/mod.rs", "sim_macro/src/lib.rs"],
  [("HCL description", "builtin/seq_std.rs"), ("hardware units", "hardware_seq.rs"), ("signal propagation", "framework/propagate.rs, sim_macro")],
  None, ["architectures::create_sim(\"seq_std\")", "CpuSim::step/registers", "MemData::read"])
p("C03", "seq_plus_std executes each instruction exactly as the ISA, one per cycle",
  "For every program state and every well-formed base instruction, one clock cycle of the seq_plus_std processor changes registers and memory exactly as the Y86-64 ISA prescribes and the next cycle fetches from the address the ISA prescribes, and a halt instruction terminates it in the cycle that executes it.",
  ["inputs", "programs"], "every machine state x every well-formed base instruction; next instruction arbitrary",
  "Same as seq_std; in addition the program counter is recomputed from saved signals, which matters only for particular instruction pairs.",
  ["sim/src/architectures/builtin/seq_plus_std.rs", "sim/src/architectures/hardware_seq.rs", "sim/src/framework/mod.rs"],
  [("HCL description", "builtin/seq_plus_std.rs"), ("PC selection from saved signals", "builtin/seq_plus_std.rs: pc")],
  None, ["architectures::create_sim(\"seq_plus_std\")", "CpuSim::step/registers", "MemData::read"])
p("C04", "pipe_std is equivalent to the ISA for every instruction sequence",
  "For every sequence of well-formed base instructions ending in halt, with arbitrary initial register, flag and memory contents, the pipelined processor terminates with the same registers and memory as sequential execution by the ISA: data hazards, load/use stalls, mispredicted branches, ret and their combinations are invisible to the program. Instructions fetched speculatively and squashed, including fetches from unmapped addresses, have no effect.",
  ["inputs", "programs", "histories"], "every sequence of up to k instructions in the five-stage pipeline (all forwarding/stall/squash combinations), all register choices and data",
  "The shipped tests of the pipeline cover no program at all in the stable suite (only seq variants), and hazards need a specific distance, register overlap and instruction kinds at once.",
  ["sim/src/architectures/builtin/pipe_std.rs", "sim/src/architectures/hardware_pipe.rs", "sim/src/dsl.rs"],
  [("forwarding", "pipe_std.rs: d_valA, d_valB"), ("stall/bubble control", "pipe_std.rs: Pipeline Register Control"), ("pipeline registers", "dsl.rs: define_stages mux")],
  None, ["architectures::create_sim(\"pipe_std\")", "CpuSim::step/registers", "MemData::read"])
p("C05", "Exceptional instructions stop every processor cleanly",
  "On every builtin processor, an instruction that fetches from or accesses memory outside the address space, or has an invalid opcode, makes the processor terminate within a bounded number of cycles without aborting the simulator, and neither the faulting instruction nor any later one changes memory. Accesses that lie wholly inside the address space are never reported as faults.",
  ["inputs", "programs"], "every machine state x every instruction byte pattern (any 64-bit address, any opcode) on each processor",
  "No test executes a faulting instruction; address computations near 0, the end of memory and 2^64 each need particular values.",
  ["sim/src/architectures/hardware_seq.rs", "sim/src/architectures/hardware_pipe.rs", "sim/src/architectures/builtin/seq_std.rs", "sim/src/architectures/builtin/seq_plus_std.rs", "sim/src/architectures/builtin/pipe_std.rs"],
  [("bounds checks", "hardware_*.rs: InstructionMemory, DataMemory"), ("status handling", "stat / f_stat / m_stat / prog_term signals")],
  None, ["CpuSim::step/is_terminate", "MemData::read"])
p("C06", "The ISA simulator reports bad programs as errors and never aborts",
  "For every 64 KiB image and reachable machine state, executing the next instruction in the ISA simulator either succeeds or returns an error; it never aborts the process. It returns an error exactly when the instruction is not a well-formed Y86-64 instruction inside the address space or accesses memory outside the address space.",
  ["inputs", "programs"], "every machine state x every byte pattern at the program counter, every 64-bit program counter value",
  "The tests only run valid programs.",
  ["sim/src/isa.rs"], [("decode and operand checks", "isa::simulate")], None, ["isa::simulate"])
p("C07", "The assembler encodes every instruction form as the ISA specifies",
  "For every instruction mnemonic, register operand, immediate, displacement and label operand, and however the line is spaced or commented, the assembled bytes are exactly the Y86-64 encoding of that instruction with those operands.",
  ["inputs"], "every mnemonic x every register operand x numeric operands in decimal/hex, signed, up to the stated digit bounds x operand labels",
  "The tests assemble one fixed program and check nothing about the bytes.",
  ["sim/src/asm/mod.rs", "sim/src/asm/grammer.pest", "sim/src/object.rs"],
  [("grammar", "grammer.pest"), ("operand conversion", "asm/mod.rs: From impls"), ("encoding", "object.rs: LineInfo::write_object")],
  None, ["assemble", "ObjectExt.obj.init_mem"])
p("C08", "Numeric literals denote their mathematical value or are rejected",
  "For every string, parsing it as a numeric literal returns the 64-bit two's-complement value of the optionally negated decimal (signed 64-bit range) or 0x-prefixed hexadecimal (64-bit) number it spells, and reports no value for any other string; it never aborts.",
  ["inputs"], "every byte string up to the stated length, and every numeral of full 64-bit length",
  "The tests contain five non-negative literals; sign handling and range ends are never exercised.",
  ["sim/src/utils.rs"], [("literal parser", "utils::parse_literal")], None, ["utils::parse_literal"])
p("C09", "Labels, .pos, .align and data directives lay memory out as written",
  "For every program whose labels are defined once and whose data values fit their size, each label stands for the location counter at its place (in front of a .pos or .align directive: the address the directive sets), .pos sets and .align rounds up the location counter, each instruction and .byte/.word/.long/.quad datum occupies its size in little-endian order at its address, and every other byte of the image is zero.",
  ["inputs", "programs"], "programs built from the directive and label forms with arbitrary numeric operands inside the address space",
  "One fixed program is assembled in the tests and its image is never inspected.",
  ["sim/src/asm/mod.rs", "sim/src/object.rs"], [("two-pass assembly", "asm::assemble"), ("image writer", "object.rs")], None, ["assemble", "Object.symbols", "Object.init_mem"])
p("C10", "The assembler reports bad source as an error and never aborts",
  "For every source text, assembling either succeeds or returns an error; numerals that do not fit 64 bits, instructions or data placed outside the address space, alignments that are no power of two, undefined labels and malformed lines are errors, and nothing aborts the process.",
  ["inputs"], "every source text of the stated shapes with arbitrary characters or numeric operands (including 64-bit extremes)",
  "The tests assemble two fixed texts.",
  ["sim/src/asm/mod.rs", "sim/src/object.rs", "sim/src/utils.rs"], [("literal conversion", "asm/mod.rs From impls"), ("range checks", "object.rs write_object")], None, ["assemble"])
p("C11", "The .yo listing reproduces the assembled image",
  "For every assembled program, reading back its .yo listing with the rule the ISA runner uses (address before the colon, hex bytes before the bar) reconstructs exactly the bytes the assembler emitted for each line at the addresses it emitted them.",
  ["inputs", "programs"], "every listing line address, datum size and byte values",
  "The tests print a listing and never read one.",
  ["sim/src/object.rs", "sim/src/bin/yis.rs", "sim/src/utils.rs"], [("listing writer", "object.rs: Display for ObjectExt"), ("listing reader", "bin/yis.rs, utils::decode_hex, utils::parse_literal")], None, ["ObjectExt Display", "yis"])
p("C12", "HCL descriptions mean what CS:APP HCL means",
  "A processor described in the HCL dialect computes, in every cycle, exactly the value of each signal definition: case lists select the first true case in order, ==, !=, in, !, && and || have their CS:APP meaning and precedence, signals may be defined in any order, and values reach exactly the unit inputs and stage fields they are assigned to.",
  ["inputs", "programs", "configurations"], "every input valuation of an HCL processor that uses each construct of the language",
  "The tests only check that three processors run; the translation of a construct is wrong only for particular operand values or case orders.",
  ["sim_macro/src/lib.rs", "sim_macro/src/expr.rs", "sim_macro/src/items.rs", "sim/src/dsl.rs"], [("translation", "sim_macro::hcl"), ("set membership", "dsl::mtc"), ("evaluation order", "framework/propagate.rs")], None, ["a processor written with sim_macro::hcl"])
p("C13", "Pipeline registers latch, stall and bubble as specified",
  "At each clock edge every pipeline register field takes its default value if bubble is asserted, keeps its value if only stall is asserted, and otherwise takes exactly the value computed for it in the cycle, independently of all other registers and fields.",
  ["inputs", "histories"], "every old/new field value and stall/bubble combination of every pipeline register",
  "No test inspects a pipeline register.",
  ["sim/src/dsl.rs"], [("mux", "dsl.rs: define_stages")], None, ["CpuSim::initiate_next_cycle"])
p("C14", "Debugger breakpoints stop exactly at the line the user chose",
  "For every program, a breakpoint set on a line that carries an address makes the debugger stop in exactly those cycles whose program counter is that address and report that breakpoint, and address/line translation maps each address to a line that carries it and each such line to its address.",
  ["inputs", "programs", "histories"], "every assignment of addresses to lines, every breakpoint line and program counter",
  "The debugger has no tests.",
  ["debugger/src/server.rs", "sim/src/object.rs"], [("breakpoint match", "server.rs: run_prog"), ("line table", "object.rs: SourceInfo")], None, ["SourceInfo::get_line, get_line_number_by_addr", "DAP stopped events"])
p("C15", "Signals are evaluated in dependency order, ill-formed circuits rejected",
  "For every circuit description, the computed evaluation order contains every unit and signal once with each after everything it depends on and its critical-path length is the longest chain of units; descriptions with a dependency cycle or a unit input without a source are rejected.",
  ["inputs", "configurations"], "every dependency graph over a bounded number of units and signals",
  "Tests build five fixed circuits.",
  ["sim/src/framework/propagate.rs"], [("topological sort", "propagate::topo, PropOrderBuilder::build")], None, ["framework::PropOrderBuilder"])
p("C16", "ALU results and condition codes agree with integer arithmetic",
  "For all 64-bit operands, add, sub, and, xor produce the mathematical result modulo 2^64, ZF/SF/OF describe it exactly, and each condition (le, l, e, ne, ge, g) tested after a subtraction or addition holds exactly when the signed comparison it names holds on the exact result.",
  ["inputs"], "all pairs of 64-bit operands, all operations, all condition functions, all flag combinations",
  "Overflow occurs only for sign-specific operand pairs; tests sample a few.",
  ["sim/src/isa.rs"], [("flag computation", "isa::ConditionCode::set/test"), ("ALU", "isa::arithmetic_compute")], None, ["isa::arithmetic_compute", "isa::ConditionCode"])
p("C17", "Execution results do not depend on display verbosity",
  "For every program state and instruction, running any simulator with terminal output enabled produces exactly the same registers, memory, flags, program counter, cycle count and termination as running it silently.",
  ["inputs", "programs", "configurations"], "every machine state x instruction, both verbosity settings, all simulators",
  "Tests never compare the two modes.",
  ["sim/src/isa.rs", "sim_macro/src/lib.rs", "sim/src/architectures/builtin/pipe_std.rs"], [("tty_out branches", "isa::simulate printi!, generated step()")], None, ["isa::simulate(tty_out)", "create_sim(tty_out)"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
