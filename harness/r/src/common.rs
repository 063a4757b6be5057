// Shared value types of the runtime harnesses (include!d into every bin).
#[allow(unused_imports)]
use derive_builder::Builder;
#[allow(unused_imports)]
use symrt::*;

/// Number of conversions performed through From/TryFrom of the types below.
pub static mut CONV: u32 = 0;
pub fn conv() {
    unsafe { CONV += 1 }
}
pub fn convs() -> u32 {
    unsafe { CONV }
}
pub fn reset() {
    unsafe {
        CONV = 0;
        EVN = 0;
    }
}
/// Ordered log of evaluation events (validators, default expressions, build blocks).
pub static mut EV: [u8; 64] = [0; 64];
pub static mut EVN: usize = 0;
pub fn ev(k: u8) {
    unsafe {
        let n = EVN;
        if n < 64 {
            EV[n] = k;
        }
        EVN = n + 1;
    }
}
pub fn evn() -> usize {
    unsafe { EVN }
}
pub fn evat(i: usize) -> u8 {
    unsafe { EV[i] }
}
/// How often event k was logged since position `from`.
pub fn evcount(k: u8, from: usize) -> u32 {
    let mut c = 0;
    let mut i = from;
    while i < evn() && i < 64 {
        if evat(i) == k {
            c += 1;
        }
        i += 1;
    }
    c
}

/// Not Copy.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct N(pub u32);
impl Default for N {
    fn default() -> N {
        N(11)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cp(pub u32);
impl Default for Cp {
    fn default() -> Cp {
        Cp(13)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Bad(pub u16);
pub fn n_of_u8(v: u8) -> u32 {
    v as u32 * 2 + 1
}
pub fn n_of_u16(v: u16) -> Result<u32, Bad> {
    if v < 500 {
        Ok(v as u32 + 7)
    } else {
        Err(Bad(v))
    }
}
impl From<u8> for N {
    fn from(v: u8) -> N {
        conv();
        N(n_of_u8(v))
    }
}
impl From<u8> for Cp {
    fn from(v: u8) -> Cp {
        conv();
        Cp(n_of_u8(v))
    }
}
impl TryFrom<u16> for N {
    type Error = Bad;
    fn try_from(v: u16) -> Result<N, Bad> {
        conv();
        n_of_u16(v).map(N)
    }
}
impl TryFrom<u16> for Cp {
    type Error = Bad;
    fn try_from(v: u16) -> Result<Cp, Bad> {
        conv();
        n_of_u16(v).map(Cp)
    }
}
/// A collection which is not Vec: remembers how it was extended.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Coll {
    pub items: [u32; 6],
    pub len: usize,
    pub origin: u8,
}
impl Default for Coll {
    fn default() -> Coll {
        Coll { items: [0; 6], len: 0, origin: 1 }
    }
}
impl Coll {
    pub fn push(&mut self, v: u32) {
        self.items[self.len % 6] = v;
        self.len += 1;
    }
}
impl Extend<Cp> for Coll {
    fn extend<I: IntoIterator<Item = Cp>>(&mut self, it: I) {
        for x in it {
            self.push(x.0);
        }
    }
}

/// `upd!(pattern, b, setter(args))` calls a setter the way its pattern requires.
#[allow(unused_macros)]
macro_rules! upd {
    ("mutable", $b:ident, $m:ident ( $($a:expr),* )) => { { $b.$m($($a),*); } };
    ($p:tt, $b:ident, $m:ident ( $($a:expr),* )) => { $b = $b.$m($($a),*); };
}
/// Build without consuming where the pattern allows it.
#[allow(unused_macros)]
macro_rules! bld {
    ($b:ident . $m:ident) => { $b.$m() };
}
#[allow(unused_macros)]
macro_rules! for_patterns {
    ($mac:ident) => {
        $mac!("mutable", mutable);
        $mac!("owned", owned);
        $mac!("immutable", immutable);
    };
}
/// A short string of symbolic ASCII characters.
pub fn sym_string(name: &str, max: usize) -> String {
    let n = below(name, max + 1) as usize;
    let mut v: Vec<u8> = Vec::new();
    for i in 0..max {
        if i < n {
            v.push(any_u8("ch") & 0x7f);
        }
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => fail("not utf8"),
    }
}
/// Any well-formed UTF-8 string of at most `max` bytes.
pub fn sym_utf8(name: &str, max: usize) -> String {
    let n = below(name, max + 1) as usize;
    let mut v: Vec<u8> = Vec::new();
    for i in 0..max {
        if i < n {
            v.push(any_u8("by"));
        }
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            String::new()
        }
    }
}
