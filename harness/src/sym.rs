//! The hooks of the symbolic executor. Natively (replay) they are provided by
//! stub.c; under the executor they are intrinsics.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_observe(v: u64);
    fn sym_tier() -> u32;
    fn sym_conc(v: u64) -> u64;
}

/// `N` symbolic bytes, each with every value from 0 to 255.
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}
#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) };
}
#[inline(always)]
pub fn byte() -> u8 {
    bytes::<1>()[0]
}
#[inline(always)]
pub fn u64s() -> u64 {
    u64::from_le_bytes(bytes::<8>())
}
#[inline(always)]
pub fn u128s() -> u128 {
    u128::from_le_bytes(bytes::<16>())
}
/// A value in `0..n` (one symbolic byte).
#[inline(always)]
pub fn below(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    b
}
/// A value in `0..n`, with one path for each value.
#[inline(always)]
pub fn pick(n: u8) -> usize {
    let b = below(n);
    let mut i = 0;
    while i < n {
        if b == i {
            return i as usize;
        }
        i += 1;
    }
    0
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
/// `v`, with one path for each value it can have.
#[inline(always)]
pub fn each(v: usize) -> usize {
    unsafe { sym_conc(v as u64) as usize }
}
/// The property: must hold on every path, for every value of the symbolic bytes.
#[inline(always)]
pub fn check(id: u32, b: bool) {
    unsafe { sym_assert(b, id) }
}
/// Reachability witness: the run is only accepted when some path gets here.
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
/// A value compared between the executor and the native build for sampled paths.
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
#[inline(always)]
pub fn tier() -> u32 {
    unsafe { sym_tier() }
}
/// The quick or the thorough bound.
#[inline(always)]
pub fn bound(quick: usize, thorough: usize) -> usize {
    if tier() == 0 {
        quick
    } else {
        thorough
    }
}

/// Declares the entry points of a harness binary.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $name() { $body }
        )*
        #[no_mangle]
        pub extern "C" fn vx_run(name: *const std::ffi::c_char) -> i32 {
            let name = unsafe { std::ffi::CStr::from_ptr(name) }.to_bytes();
            $( if name == stringify!($name).as_bytes() { $name(); return 0; } )*
            1
        }
        fn main() {
            extern "C" { fn vx_main(argc: i32, argv: *const *const std::ffi::c_char) -> i32; }
            let args: Vec<std::ffi::CString> = std::env::args()
                .map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let ptrs: Vec<_> = args.iter().map(|a| a.as_ptr()).collect();
            std::process::exit(unsafe { vx_main(ptrs.len() as i32, ptrs.as_ptr()) });
        }
    };
}
