//! The ISA runner /repo/sim/src/bin/yis.rs with its surroundings replaced: no command line, one
//! input file whose text is given here, and a simulator that keeps the memory image.
#![allow(unused)]
use std::cell::RefCell;

static mut FILE: Option<String> = None;
static mut BIN: [u8; 1 << 16] = [0; 1 << 16];

mod program {
    mod std {
        pub use ::std::*;
        pub mod fs {
            pub use ::std::fs::*;
            #[allow(static_mut_refs)]
            pub fn read_to_string<P>(_: P) -> ::std::io::Result<String> {
                Ok(unsafe { super::super::super::FILE.take() }.unwrap_or_default())
            }
        }
    }
    mod y86_sim {
        pub use ::y86_sim::*;
        pub mod isa {
            pub use ::y86_sim::isa::*;
            pub fn simulate(bin: [u8; ::y86_sim::BIN_SIZE], _: bool) -> ::anyhow::Result<()> {
                unsafe { super::super::super::BIN = bin };
                Ok(())
            }
        }
    }
    mod binutils {
        pub mod clap {
            pub use yisstub::Parser;
        }
        pub mod verbose {
            #[derive(Debug, Default)]
            pub struct Verbosity;
            impl Verbosity {
                pub fn log_level(&self) -> Option<u8> {
                    None
                }
            }
        }
        pub fn verbose_level_to_trace<T>(_: T) {}
        pub fn logging_setup<A, B>(_: A, _: B) {}
    }
    include!("/repo/sim/src/bin/yis.rs");
    pub fn run() -> bool {
        match main() {
            Ok(()) => true,
            Err(e) => {
                ::std::mem::forget(e);
                false
            }
        }
    }
}

/// The image the runner loads from the text of a .yo file.
#[allow(static_mut_refs)]
pub fn load(yo: String) -> Option<&'static [u8; 1 << 16]> {
    unsafe {
        FILE = Some(yo);
        BIN = [0; 1 << 16];
        program::run().then_some(&BIN)
    }
}
