//! Entry points, grouped by cargo feature so that a check only builds what it needs.
#[cfg(feature = "native")]
pub mod native;
pub mod vp;

#[cfg(any(feature = "cpu", feature = "pipe", feature = "fault", feature = "isa"))]
pub mod image;
#[cfg(any(feature = "cpu", feature = "pipe", feature = "fault", feature = "isa"))]
pub mod spec;

#[cfg(feature = "alu")]
pub mod p_alu;
#[cfg(any(feature = "asm", feature = "yo"))]
pub mod p_asm;
#[cfg(any(feature = "cpu", feature = "pipe", feature = "fault"))]
pub mod p_cpu;
#[cfg(feature = "fault")]
pub mod p_fault;
#[cfg(feature = "isa")]
pub mod p_isa;
#[cfg(feature = "lit")]
pub mod p_lit;
#[cfg(feature = "pipe")]
pub mod p_pipe;
#[cfg(feature = "yo")]
pub mod p_yo;
#[cfg(feature = "yo")]
pub mod yis;

/// Entry points by name, for replays.
#[cfg(feature = "native")]
macro_rules! entries {
    ($($feat:literal: $m:ident { $($f:ident)* })*) => {
        pub fn run(name: &str) -> bool {
            $(
                #[cfg(feature = $feat)]
                match name {
                    $(stringify!($f) => { $m::$f(); return true })*
                    _ => {}
                }
            )*
            false
        }
    };
}
#[cfg(feature = "native")]
entries! {
    "alu": p_alu { vp_c16_alu vp_c16_cmp }
    "asm": p_asm { vp_c07 vp_c09_two vp_c09_three vp_c09_names vp_c10_num vp_c10_addr vp_c10_align vp_c10_any4 vp_c10_any5 }
    "cpu": p_cpu { vp_c02 vp_c03 }
    "fault": p_fault { vp_c05_fetch vp_c05_fault vp_c05_any }
    "isa": p_isa { vp_c01 vp_c06 vp_c06_pc }
    "lit": p_lit { vp_c08_any4 vp_c08_any6 vp_c08_dec vp_c08_hex vp_c08_bad }
    "pipe": p_pipe { vp_c04_pair vp_c04_gap vp_c04_triple vp_c04_stack vp_c04_shadow vp_c04_one }
    "yo": p_yo { vp_c11 vp_c11_addr }
}
