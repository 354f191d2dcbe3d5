#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sx_sym(width: u32) -> u64;
        pub fn sx_choose(n: u32) -> u32;
        pub fn sx_assume(b: bool);
        pub fn sx_check(b: bool, p: *const u8, n: usize);
        pub fn sx_cover(p: *const u8, n: usize);
        pub fn sx_tag(p: *const u8, n: usize);
        pub fn sx_observe(v: u64);
        pub fn sx_allow_panic(b: bool);
        pub fn sx_tier() -> u32;
    }
}

/// Concrete replay: the same calls served from a list of inputs.
#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    pub struct St {
        pub inputs: Vec<u64>,
        pub pos: usize,
        pub failed: u32,
        pub tier: u32,
        pub dry: bool,
    }
    pub static ST: Mutex<St> = Mutex::new(St { inputs: Vec::new(), pos: 0, failed: 0, tier: 0, dry: false });
    fn st() -> std::sync::MutexGuard<'static, St> {
        match ST.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    fn next() -> u64 {
        let mut s = st();
        if s.pos >= s.inputs.len() {
            if s.dry {
                s.pos += 1;
                return 0;
            }
            drop(s);
            println!("UNDERRUN");
            std::process::exit(43);
        }
        let v = s.inputs[s.pos];
        s.pos += 1;
        v
    }
    pub unsafe fn sx_sym(w: u32) -> u64 {
        let v = next();
        if w >= 64 {
            v
        } else {
            v & ((1 << w) - 1)
        }
    }
    pub unsafe fn sx_choose(n: u32) -> u32 {
        let v = next() as u32;
        if v >= n {
            println!("ASSUME");
            std::process::exit(42);
        }
        v
    }
    pub unsafe fn sx_assume(b: bool) {
        if !b {
            println!("ASSUME");
            std::process::exit(42);
        }
    }
    pub unsafe fn sx_check(b: bool, p: *const u8, n: usize) {
        let id = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap();
        if b {
            println!("CHECK {}", id);
        } else {
            println!("FAIL {}", id);
            st().failed += 1;
            // as in the symbolic run, what follows a failed check is not explored
            if !id.starts_with("kf.") {
                std::process::exit(1);
            }
        }
    }
    pub unsafe fn sx_cover(p: *const u8, n: usize) {
        println!("COVER {}", std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap());
    }
    pub unsafe fn sx_tag(p: *const u8, n: usize) {
        println!("TAG {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
    }
    pub unsafe fn sx_observe(v: u64) {
        println!("OBS {}", v);
    }
    pub unsafe fn sx_allow_panic(b: bool) {
        println!("ALLOW-PANIC {}", b);
    }
    pub unsafe fn sx_tier() -> u32 {
        st().tier
    }
    /// `main` of a replay binary: ENTRY TIER INPUT...
    pub fn main(entries: &[(&str, extern "C" fn())]) -> i32 {
        let a: Vec<String> = std::env::args().collect();
        if a.len() == 2 && a[1] == "--list" {
            for (n, _) in entries {
                println!("{}", n);
            }
            return 0;
        }
        if a.len() < 3 {
            eprintln!("usage: ENTRY TIER INPUT...");
            return 3;
        }
        {
            let mut s = st();
            s.tier = a[2].parse().unwrap();
            s.inputs = a[3..].iter().map(|x| x.parse().unwrap()).collect();
        }
        let f = match entries.iter().find(|(n, _)| *n == a[1]) {
            Some(f) => f.1,
            None => {
                eprintln!("no entry {}", a[1]);
                return 3;
            }
        };
        f();
        let s = st();
        println!("END {} {}", s.pos, s.failed);
        (s.failed > 0) as i32
    }
}

#[cfg(feature = "native")]
pub use imp::main as native_main;
use imp::*;

pub fn sym(width: u32) -> u64 {
    unsafe { sx_sym(width) }
}
pub fn sym_u8() -> u8 {
    sym(8) as u8
}
pub fn sym_bool() -> bool {
    sym(1) & 1 == 1
}
/// A symbolic value below `n`, forked into its concrete values.
pub fn choose(n: u32) -> u32 {
    unsafe { sx_choose(n) }
}
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn assume(b: bool) {
    unsafe { sx_assume(b) }
}
pub fn check(b: bool, id: &str) {
    unsafe { sx_check(b, id.as_ptr(), id.len()) }
}
pub fn cover(id: &str) {
    unsafe { sx_cover(id.as_ptr(), id.len()) }
}
pub fn tag(id: &str) {
    unsafe { sx_tag(id.as_ptr(), id.len()) }
}
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
pub fn allow_panic(b: bool) {
    unsafe { sx_allow_panic(b) }
}
/// 0: quick, 1: thorough
pub fn thorough() -> bool {
    unsafe { sx_tier() != 0 }
}
pub fn tiered<T>(quick: T, deep: T) -> T {
    if thorough() {
        deep
    } else {
        quick
    }
}
/// A string of exactly `n` symbolic ASCII bytes.
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let c = sym_u8();
        assume(c < 0x80);
        v.push(c);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of up to `n` symbolic ASCII bytes (length forked).
pub fn text(n: u32) -> String {
    ascii(choose(n + 1) as usize)
}
static mut MODE: [Option<u32>; 2] = [None; 2];
fn mode(which: usize, n: u32) -> u32 {
    unsafe {
        if MODE[which].is_none() {
            MODE[which] = Some(choose(n));
        }
        MODE[which].unwrap()
    }
}
fn text_of(mode: u32) -> String {
    match mode {
        0 => ascii(1),
        1 => String::new(),
        2 => {
            let c = sym_u8();
            assume(c >= 0x80 && c < 0xc0);
            unsafe { String::from_utf8_unchecked(vec![0xc3, c]) }
        }
        3 => {
            let mut s = ascii(1);
            for _ in 0..300 {
                s.push('m');
            }
            s.push_str(&ascii(1));
            s
        }
        n => ascii(n as usize - 2),
    }
}
/// A text: one symbolic byte; empty; a two-byte character with a symbolic second byte; a long
/// text, symbolic at both ends; or 2 to 16 symbolic bytes. Which of them is chosen once per run for all texts.
pub fn some_text() -> String {
    text_of(mode(0, 19))
}
/// The same, for names that are compared with many others: without the last kind.
pub fn some_name() -> String {
    text_of(mode(1, 4))
}
/// Nothing or a text (thorough: or the empty text, whatever the others are).
pub fn opt_text() -> Option<String> {
    match choose(tiered(2, 3)) {
        0 => None,
        1 => Some(some_text()),
        _ => Some(String::new()),
    }
}
/// Observes a string's bytes, for comparison with the native run.
pub fn observe_str(s: &str) {
    observe(s.len() as u64);
    for b in s.bytes() {
        observe(b as u64);
    }
}
