bug("c01-popq-rsp", "C01", "sim/src/isa.rs",
    "                reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);\n",
    "                if ra != reg_code::RSP as usize {\n                    reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);\n                }\n",
    "popq %rsp executed by the ISA simulator", "popq %rsp leaves %rsp incremented instead of loading the popped value",
    r'''
fn main() {
    let r = isa("    irmovq $0x300, %rsp\n    popq %rsp\n    halt\n.pos 0x300\n.quad 0x1234\n").unwrap();
    assert_eq!(r.regs[4], 0x1234);
    println!("ok");
}
''')
bug("c02-cmov-alub", "C02", "sim/src/architectures/builtin/seq_std.rs",
    "    icode in { CMOVX, IRMOVQ } : 0;", "    icode == IRMOVQ || icode == CMOVX && ifun != 0 : 0;\n    icode == CMOVX : valB;",
    "rrmovq (unconditional) whose second register reads non-zero: valB is not selected for CMOVX, but ...", "", "")
del B["c02-cmov-alub"]
bug("c04-fwd-order", "C04", "sim/src/architectures/builtin/pipe_std.rs",
    """    d_srcA == M.dstM : m_valM; // Forward valM from memory
    d_srcA == M.dstE : M.valE; // Forward valE from memory
    d_srcA == W.dstM : W.valM; // Forward valM from write back
    d_srcA == W.dstE : W.valE; // Forward valE from write back
    1 : d_rvalA;""",
    """    d_srcA == M.dstM : m_valM; // Forward valM from memory
    d_srcA == M.dstE : M.valE; // Forward valE from memory
    d_srcA == W.dstE : W.valE; // Forward valE from write back
    d_srcA == W.dstM : W.valM; // Forward valM from write back
    1 : d_rvalA;""",
    "popq %rsp followed, exactly three instructions later, by an instruction that reads %rsp as its A operand",
    "the forwarded value is %rsp + 8 instead of the popped value",
    r'''
fn main() {
    let src = "    irmovq $0x300, %rsp\n    popq %rsp\n    nop\n    nop\n    rrmovq %rsp, %rax\n    halt\n.pos 0x300\n.quad 0x1234\n";
    let a = run("pipe_std", src).unwrap();
    assert_eq!(a.0, isa(src).unwrap().regs);
    println!("ok");
}
''')
bug("c04-retstall", "C04", "sim/src/architectures/builtin/pipe_std.rs",
    """    // but not condition for a load/use hazard
    !(E.icode in { MRMOVQ, POPQ } && E.dstM in { d_srcA, d_srcB }) &&
      RET in {D.icode, E.icode, M.icode};""",
    """    // but not condition for a load/use hazard
    !(E.icode in { MRMOVQ, POPQ }) &&
      RET in {D.icode, E.icode, M.icode};""",
    "ret directly behind a load that does not write %rsp",
    "while ret waits, the instruction behind it is fetched and executed once",
    r'''
fn main() {
    let src = "    irmovq $0x300, %rsp\n    mrmovq 8(%rsp), %rbx\n    ret\n    irmovq $0x77, %rcx\n    halt\n.pos 0x100\n    halt\n.pos 0x300\n.quad 0x100\n.quad 5\n";
    let a = run("pipe_std", src).unwrap();
    assert_eq!(a.0, isa(src).unwrap().regs);
    println!("ok");
}
''')
bug("c05-bubble", "C05", "sim/src/architectures/builtin/pipe_std.rs",
    """    m_stat in { Adr, Ins, Hlt } || W.stat in { Adr, Ins, Hlt };

@set_stage(m""", """    m_stat in { Adr, Ins } || W.stat in { Adr, Ins };

@set_stage(m""",
    "halt immediately followed by an instruction that writes memory", "the store behind halt is executed", "")
del B["c05-bubble"]
bug("c05-wmem", "C05", "sim/src/architectures/builtin/pipe_std.rs",
    """    m_stat in { Adr, Ins, Hlt } || W.stat in { Adr, Ins, Hlt };

@set_stage(m""", """    m_stat in { Adr, Hlt } || W.stat in { Adr, Ins, Hlt };

@set_stage(m""",
    "an invalid opcode directly followed by a push, store or call", "the store behind an invalid instruction reaches memory before the processor stops",
    r'''
fn main() {
    let obj = y86_sim::assemble("    irmovq $0x300, %rsp\n    irmovq $0x55, %rax\n    nop\n    pushq %rax\n    halt\n", Default::default()).unwrap();
    let mut img = obj.obj.init_mem();
    assert_eq!(img[20], 0x10);
    img[20] = 0xd0;
    let a = run_img("pipe_std", img).unwrap();
    assert!(a.1[..] == img[..], "memory changed");
    println!("ok");
}
''')
bug("c06-tail", "C06", "sim/src/isa.rs",
    "            Some(nex_pc) if nex_pc <= BIN_SIZE => Ok(nex_pc),", "            Some(nex_pc) if nex_pc <= BIN_SIZE || pc + n / 2 < BIN_SIZE => Ok(nex_pc),",
    "an instruction with a constant that starts within the last bytes of memory", "the simulator panics on a slice out of range instead of reporting an error",
    r'''
fn main() {
    let mut img = [0x10u8; y86_sim::BIN_SIZE];
    let n = img.len();
    img[n - 8] = 0x30;
    img[n - 7] = 0xf0;
    assert!(y86_sim::isa::simulate(img, false).is_err());
    println!("ok");
}
''')
