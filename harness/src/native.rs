//! Concrete versions of the engine's intrinsics: values come from a replay file.
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, OnceLock};

static VALS: OnceLock<HashMap<String, u64>> = OnceLock::new();
static CASES: Mutex<u64> = Mutex::new(0);
static PANIC_OK: AtomicBool = AtomicBool::new(false);

pub fn load(file: &str) {
    let mut h = HashMap::new();
    for l in std::fs::read_to_string(file).expect("replay file").lines() {
        if l.starts_with('#') {
            continue;
        }
        if let Some((a, b)) = l.rsplit_once(' ') {
            if let Ok(v) = b.parse::<u64>() {
                h.insert(a.to_string(), v);
            }
        }
    }
    let _ = VALS.set(h);
    std::panic::set_hook(Box::new(|i| {
        if PANIC_OK.load(Ordering::SeqCst) {
            println!("REPLAY-PANIC-ACCEPTED {}", i);
            std::process::exit(0);
        }
        println!("REPLAY-FAIL panic {}", i);
        std::process::exit(1);
    }));
}
fn get(k: &str) -> Option<u64> {
    VALS.get().and_then(|h| h.get(k).copied())
}
unsafe fn tag<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}
#[no_mangle]
pub unsafe extern "C" fn vp_u64(p: *const u8, n: usize) -> u64 {
    get(tag(p, n)).unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn vp_range(p: *const u8, n: usize, lo: u64, hi: u64) -> u64 {
    let v = get(tag(p, n)).unwrap_or(lo);
    vp_assume(lo <= v && v <= hi);
    v
}
#[no_mangle]
pub unsafe extern "C" fn vp_u8(p: *const u8, n: usize) -> u8 {
    get(tag(p, n)).unwrap_or(0) as u8
}
#[no_mangle]
pub unsafe extern "C" fn vp_array(p: *const u8, n: usize, a: *mut u8, len: usize, pins: *const [u32; 2], np: usize) {
    let t = tag(p, n);
    let a = std::slice::from_raw_parts_mut(a, len);
    let pins = if np == 0 { &[][..] } else { std::slice::from_raw_parts(pins, np) };
    let d = get(&format!("{}.default", t)).unwrap_or(0) as u8;
    let keep: Vec<u8> = a.to_vec();
    a.fill(d);
    let pre = format!("{}[", t);
    for (k, v) in VALS.get().unwrap() {
        if let Some(r) = k.strip_prefix(&pre) {
            if let Ok(i) = r.trim_end_matches(']').parse::<usize>() {
                if i < len {
                    a[i] = *v as u8;
                }
            }
        }
    }
    for [s, l] in pins {
        let (s, l) = (*s as usize, *l as usize);
        a[s..s + l].copy_from_slice(&keep[s..s + l]);
    }
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        println!("REPLAY-ASSUME-FALSE");
        std::process::exit(4);
    }
}
#[no_mangle]
pub extern "C" fn vp_assert(c: bool, id: u64) {
    if !c {
        println!("REPLAY-FAIL assert {}", id);
        std::process::exit(1);
    }
}
#[no_mangle]
pub extern "C" fn vp_reach(_: u64) {}
#[no_mangle]
pub extern "C" fn vp_merge(_: u64) {}
#[no_mangle]
pub extern "C" fn vp_panic_ok(x: u64) {
    PANIC_OK.store(x != 0, Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn vp_stub_format(_: *const u8) {}
#[no_mangle]
pub extern "C" fn vp_case(_: u64) -> u64 {
    let mut c = CASES.lock().unwrap();
    let k = *c;
    *c += 1;
    get(&format!("case{}", k)).unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn vp_note(p: *const u8, n: usize, v: u64) {
    println!("REPLAY-NOTE {} {:#x}", tag(p, n), v);
}
#[no_mangle]
pub extern "C" fn vp_conc(v: u64) -> u64 {
    v
}
