//! Independent reference encoders, written from the symbology standards.

/// Pushes the `n` low bits of `v`, most significant first.
pub fn put(out: &mut Vec<u8>, v: u32, n: u32) {
    let mut i = n;
    while i > 0 { i -= 1; out.push(((v >> i) & 1) as u8); }
}
/// Bit pattern of a module run string such as "3211" starting with `first`.
pub fn digits(s: &str) -> Vec<u32> {
    let mut v = Vec::new();
    let mut it = s.chars();
    while let Some(c) = it.next() { v.push(c as u32 - 48); }
    v
}
const L: [u32; 10] = [0x0D, 0x19, 0x13, 0x3D, 0x23, 0x31, 0x2F, 0x3B, 0x37, 0x0B];
const G: [u32; 10] = [0x27, 0x33, 0x1B, 0x21, 0x1D, 0x39, 0x05, 0x11, 0x09, 0x17];
// bit 4 = second digit of the left half ... bit 0 = sixth (EAN-13 parity, first is always odd)
const EAN13_PARITY: [u32; 10] = [0x00, 0x0B, 0x0D, 0x0E, 0x13, 0x19, 0x1C, 0x15, 0x16, 0x1A];

/// Modulo-10 check digit: weights 3,1,3,1… from the rightmost data digit.
pub fn mod10(d: &[u32]) -> u32 {
    let mut sum = 0;
    let mut w = 3;
    let mut i = d.len();
    while i > 0 { i -= 1; sum += d[i] * w; w = 4 - w; }
    (10 - sum % 10) % 10
}
/// EAN-13 symbol for 12 data digits.
pub fn ean13(d: &[u32]) -> Vec<u8> {
    let mut o = Vec::new();
    put(&mut o, 0b101, 3);
    let par = EAN13_PARITY[d[0] as usize];
    let mut i = 1;
    while i <= 6 {
        let even = i > 1 && (par >> (6 - i)) & 1 == 1;
        if even { put(&mut o, G[d[i] as usize], 7); } else { put(&mut o, L[d[i] as usize], 7); }
        i += 1;
    }
    put(&mut o, 0b01010, 5);
    while i <= 11 { put(&mut o, L[d[i] as usize] ^ 0x7F, 7); i += 1; }
    put(&mut o, L[mod10(d) as usize] ^ 0x7F, 7);
    put(&mut o, 0b101, 3);
    o
}
/// EAN-8 symbol for 7 data digits.
pub fn ean8(d: &[u32]) -> Vec<u8> {
    let mut o = Vec::new();
    put(&mut o, 0b101, 3);
    let mut i = 0;
    while i < 4 { put(&mut o, L[d[i] as usize], 7); i += 1; }
    put(&mut o, 0b01010, 5);
    while i < 7 { put(&mut o, L[d[i] as usize] ^ 0x7F, 7); i += 1; }
    put(&mut o, L[mod10(d) as usize] ^ 0x7F, 7);
    put(&mut o, 0b101, 3);
    o
}
/// UPC-A symbol for 11 data digits.
pub fn upca(d: &[u32]) -> Vec<u8> {
    let mut o = Vec::new();
    put(&mut o, 0b101, 3);
    let mut i = 0;
    while i < 6 { put(&mut o, L[d[i] as usize], 7); i += 1; }
    put(&mut o, 0b01010, 5);
    while i < 11 { put(&mut o, L[d[i] as usize] ^ 0x7F, 7); i += 1; }
    put(&mut o, L[mod10(d) as usize] ^ 0x7F, 7);
    put(&mut o, 0b101, 3);
    o
}
// parity of the EAN-5 digits by check digit, bit 4 = first digit, 1 = set B (even)
const EAN5_PARITY: [u32; 10] = [0x18, 0x14, 0x12, 0x11, 0x0C, 0x06, 0x03, 0x0A, 0x09, 0x05];
/// EAN-2 or EAN-5 add-on.
pub fn addon(d: &[u32]) -> Vec<u8> {
    let mut o = Vec::new();
    put(&mut o, 0b1011, 4);
    let n = d.len();
    let par = if n == 2 { (d[0] * 10 + d[1]) % 4 } else { EAN5_PARITY[(((d[0] + d[2] + d[4]) * 3 + (d[1] + d[3]) * 9) % 10) as usize] };
    let mut i = 0;
    while i < n {
        if i > 0 { put(&mut o, 0b01, 2); }
        if (par >> (n - 1 - i)) & 1 == 1 { put(&mut o, G[d[i] as usize], 7); } else { put(&mut o, L[d[i] as usize], 7); }
        i += 1;
    }
    o
}
// 2 of 5: one bit per element, 1 = wide, first element in bit 4
const TWO5: [u32; 10] = [0x06, 0x11, 0x09, 0x18, 0x05, 0x14, 0x0C, 0x03, 0x12, 0x0A];
/// Interleaved 2 of 5 for an even number of digits.
pub fn itf(d: &[u32]) -> Vec<u8> {
    let mut o = Vec::new();
    put(&mut o, 0b1010, 4);
    let mut i = 0;
    while i < d.len() {
        let (b, s) = (TWO5[d[i] as usize], TWO5[d[i + 1] as usize]);
        let mut k = 5;
        while k > 0 {
            k -= 1;
            if (b >> k) & 1 == 1 { put(&mut o, 7, 3); } else { put(&mut o, 1, 1); }
            if (s >> k) & 1 == 1 { put(&mut o, 0, 3); } else { put(&mut o, 0, 1); }
        }
        i += 2;
    }
    put(&mut o, 0b1101, 4);
    o
}
/// Standard (industrial) 2 of 5.
pub fn stf(d: &[u32]) -> Vec<u8> {
    let mut o = Vec::new();
    put(&mut o, 0b11011010, 8);
    let mut i = 0;
    while i < d.len() {
        let b = TWO5[d[i] as usize];
        let mut k = 5;
        while k > 0 {
            k -= 1;
            if (b >> k) & 1 == 1 { put(&mut o, 0b1110, 4); } else { put(&mut o, 0b10, 2); }
        }
        i += 1;
    }
    put(&mut o, 0b11010110, 8);
    o
}
/// Position of a character in an alphabet (the length when absent).
pub fn pos(c: char, alphabet: &str) -> usize {
    let mut i = 0;
    let mut it = alphabet.chars();
    while let Some(a) = it.next() { if a == c { return i; } i += 1; }
    i
}
pub fn values(s: &str, alphabet: &str) -> Vec<usize> {
    let mut v = Vec::new();
    let mut it = s.chars();
    while let Some(c) = it.next() { v.push(pos(c, alphabet)); }
    v
}
/// Elements alternately bar/space from a narrow/wide mask of `n` elements (MSB first).
fn wide(o: &mut Vec<u8>, mask: u32, n: u32) {
    let mut k = n;
    let mut bar = 1u8;
    while k > 0 {
        k -= 1;
        o.push(bar);
        if (mask >> k) & 1 == 1 { o.push(bar); }
        bar = 1 - bar;
    }
}
pub const A39: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
const W39: [u32; 44] = [0x034, 0x121, 0x061, 0x160, 0x031, 0x130, 0x070, 0x025, 0x124, 0x064, 0x109, 0x049, 0x148, 0x019, 0x118, 0x058, 0x00D, 0x10C, 0x04C, 0x01C, 0x103, 0x043, 0x142, 0x013, 0x112, 0x052, 0x007, 0x106, 0x046, 0x016, 0x181, 0x0C1, 0x1C0, 0x091, 0x190, 0x0D0, 0x085, 0x184, 0x0C4, 0x0A8, 0x0A2, 0x08A, 0x02A, 0x094];
pub fn code39(s: &str, check: bool) -> Vec<u8> {
    let v = values(s, A39);
    let mut o = Vec::new();
    wide(&mut o, W39[43], 9);
    o.push(0);
    let mut sum = 0;
    let mut i = 0;
    while i < v.len() { wide(&mut o, W39[v[i]], 9); o.push(0); sum += v[i]; i += 1; }
    if check { wide(&mut o, W39[sum % 43], 9); o.push(0); }
    wide(&mut o, W39[43], 9);
    o
}
pub const A93: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
const P93: [u32; 48] = [0x114, 0x148, 0x144, 0x142, 0x128, 0x124, 0x122, 0x150, 0x112, 0x10A, 0x1A8, 0x1A4, 0x1A2, 0x194, 0x192, 0x18A, 0x168, 0x164, 0x162, 0x134, 0x11A, 0x158, 0x14C, 0x146, 0x12C, 0x116, 0x1B4, 0x1B2, 0x1AC, 0x1A6, 0x196, 0x19A, 0x16C, 0x166, 0x136, 0x13A, 0x12E, 0x1D4, 0x1D2, 0x1CA, 0x16E, 0x176, 0x1AE, 0x126, 0x1DA, 0x1D6, 0x132, 0x15E];
/// Weighted sum, weights 1..=top repeating from the right.
pub fn weighted(v: &[usize], top: usize) -> usize {
    let mut sum = 0;
    let mut w = 1;
    let mut i = v.len();
    while i > 0 { i -= 1; sum += v[i] * w; w = if w == top { 1 } else { w + 1 }; }
    sum
}
pub fn code93(s: &str) -> Vec<u8> {
    let mut v = values(s, A93);
    let c = weighted(&v, 20) % 47;
    v.push(c);
    let k = weighted(&v, 15) % 47;
    v.push(k);
    let mut o = Vec::new();
    put(&mut o, P93[47], 9);
    let mut i = 0;
    while i < v.len() { put(&mut o, P93[v[i]], 9); i += 1; }
    put(&mut o, P93[47], 9);
    o.push(1);
    o
}
pub const A11: &str = "0123456789-";
// five elements, 1 = wide
const W11: [u32; 12] = [0x01, 0x11, 0x09, 0x18, 0x05, 0x14, 0x0C, 0x03, 0x12, 0x10, 0x04, 0x06];
pub fn code11(s: &str) -> Vec<u8> {
    let mut v = values(s, A11);
    let n = v.len();
    let c = weighted(&v, 10) % 11;
    v.push(c);
    if n > 10 { let k = weighted(&v, 9) % 11; v.push(k); }
    let mut o = Vec::new();
    wide(&mut o, W11[11], 5);
    o.push(0);
    let mut i = 0;
    while i < v.len() { wide(&mut o, W11[v[i]], 5); o.push(0); i += 1; }
    wide(&mut o, W11[11], 5);
    o
}
pub const ACB: &str = "0123456789-$:/.+ABCD";
const WCB: [u32; 20] = [0x03, 0x06, 0x09, 0x60, 0x12, 0x42, 0x21, 0x24, 0x30, 0x48, 0x0C, 0x18, 0x45, 0x51, 0x54, 0x15, 0x1A, 0x29, 0x0B, 0x0E];
/// Codabar. `plus`: the '+' of the library; `swap`: B and C exchanged.
pub fn codabar(s: &str, plus: bool, swap: bool) -> Vec<u8> {
    let v = values(s, ACB);
    let mut o = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if i > 0 { o.push(0); }
        let mut k = v[i];
        if swap { if k == 17 { k = 18; } else if k == 18 { k = 17; } }
        if plus && k == 15 { put(&mut o, 0b101100110011, 12); } else { wide(&mut o, WCB[k], 7); }
        i += 1;
    }
    o
}

/// Bar/space widths of the Code 128 symbol characters 0..=105.
pub const W128: &str = "212222222122222221121223121322131222122213122312132212221213221312231212112232122132122231113222123122123221223211221132221231213212223112312131311222321122321221312212322112322211212123212321232121111323131123131321112313132113132311211313231113231311112133112331132131113123113321133121313121211331231131213113213311213131311123311321331121312113312311332111314111221411431111111224111422121124121421141122141221112214112412122114122411142112142211241211221114413111241112134111111242121142121241114212124112124211411212421112421211212141214121412121111143111341131141114113114311411113411311113141114131311141411131211412211214211232";
/// Patterns as 11-bit numbers.
pub fn patterns128() -> Vec<u32> {
    let mut v = Vec::new();
    let mut it = W128.chars();
    let mut i = 0;
    while i < 106 {
        let mut p = 0u32;
        let mut bar = 1;
        let mut k = 0;
        while k < 6 {
            let mut w = it.next().unwrap() as u32 - 48;
            while w > 0 { p = p * 2 + bar; w -= 1; }
            bar = 1 - bar;
            k += 1;
        }
        v.push(p);
        i += 1;
    }
    v
}
/// Code value of one non-digit-pair character in set 0 (A), 1 (B) or 2 (C); 255 when not encodable.
/// Index 95 of set B is DEL.
pub fn value128(set: u32, c: u32) -> u32 {
    if set == 2 {
        return if c == 0x181 { 100 } else if c == 0xC0 { 101 } else if c == 0x179 { 102 } else { 255 };
    }
    if c == 0x179 { return 102; }
    if c == 0x17B { return 96; }
    if c == 0x17A { return 97; }
    if c == 0x17D { return 98; }
    if c == 0x106 { return 99; }
    if set == 0 {
        if c == 0x181 { return 100; }
        if c == 0x17C { return 101; }
        if c < 32 { return c + 64; }
        if c < 96 { return c - 32; }
        return 255;
    }
    if c == 0xC0 { return 101; }
    if c == 0x17C { return 100; }
    if c >= 32 && c < 128 { return c - 32; }
    255
}
fn set_of(c: u32) -> u32 { if c == 0xC0 { 0 } else if c == 0x181 { 1 } else if c == 0x106 { 2 } else { 3 } }
/// Code values (start code first) or None when the string is not a legal Code 128 input.
pub fn codes128(s: &str) -> Option<Vec<u32>> {
    let mut out = Vec::new();
    let mut it = s.chars();
    let first = set_of(match it.next() { Some(c) => c as u32, None => return None });
    if first > 2 { return None; }
    out.push(103 + first);
    let mut set = first;
    let mut half = 10; // pending first digit of a pair, 10 = none
    while let Some(ch) = it.next() {
        let c = ch as u32;
        if set == 2 && c >= 48 && c <= 57 {
            if half == 10 { half = c - 48; } else { out.push(half * 10 + c - 48); half = 10; }
        } else {
            if half != 10 { return None; }
            if set == 2 && c == 0x106 { return None; }
            let v = value128(set, c);
            if v == 255 { return None; }
            out.push(v);
            let t = set_of(c);
            if t < 3 { set = t; }
        }
    }
    if half != 10 { return None; }
    Some(out)
}
/// Whole symbol from its code values.
pub fn symbol128(codes: &[u32]) -> Vec<u8> {
    let p = patterns128();
    let mut sum = codes[0] as u64;
    let mut i = 1;
    while i < codes.len() { sum += codes[i] as u64 * i as u64; i += 1; }
    let mut o = Vec::new();
    let mut i = 0;
    while i < codes.len() { put(&mut o, p[codes[i] as usize], 11); i += 1; }
    put(&mut o, p[(sum % 103) as usize], 11);
    put(&mut o, 0b1100011101011, 13);
    o
}
