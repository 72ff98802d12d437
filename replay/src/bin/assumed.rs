//! Compares the contracts that the deduction assumes about the standard library and the intrinsics with what those
//! functions do. Every line of output names an assumption and the number of inputs tried.
use std::ops::{Bound, RangeBounds};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn word(&mut self) -> usize {
        let w = self.next() as usize;
        match self.next() % 6 {
            0 => w,
            1 => w & self.next() as usize & self.next() as usize,
            2 => w | self.next() as usize | self.next() as usize,
            3 => w >> (self.next() % 64),
            4 => w << (self.next() % 64),
            _ => [0, 1, 2, usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1][(self.next() % 7) as usize],
        }
    }
}

fn wbit(w: usize, i: usize) -> bool {
    (w >> i) & 1 == 1
}

fn must(c: bool, what: &str, input: String) {
    if !c {
        println!("FAIL assumption {what} does not hold for {input}");
        std::process::exit(1);
    }
}

fn std_functions(r: &mut Rng, n: usize) {
    must(std::mem::size_of::<usize>() == 8, "64-bit usize", String::new());
    for _ in 0..n {
        let w = r.word();
        must(w.count_ones() as usize == (0..64).filter(|i| wbit(w, *i)).count(), "usize::count_ones", format!("{w:#x}"));
        must(w.trailing_zeros() as usize == (0..64).find(|i| wbit(w, *i)).unwrap_or(64), "usize::trailing_zeros", format!("{w:#x}"));
        must(w.count_zeros() as usize == (0..64).filter(|i| !wbit(w, *i)).count(), "usize::count_zeros", format!("{w:#x}"));
        must((w as u64).count_ones() == w.count_ones(), "u64::count_ones", format!("{w:#x}"));
        let l = w.leading_zeros();
        must(l <= 64 && (l == 64) == (w == 0), "usize::leading_zeros", format!("{w:#x}"));
        must(w == 0 || 1u128 << (63 - l) <= w as u128 && (w as u128) < 1u128 << (64 - l), "usize::leading_zeros", format!("{w:#x}"));
        let x = w as i32;
        must(x.leading_zeros() == (0..32).rev().find(|i| (x as u32 >> i) & 1 == 1).map_or(32, |i| 31 - i), "i32::leading_zeros", format!("{x:#x}"));
        if w > 0 {
            let l = w.ilog2();
            must(l < 64 && 1u128 << l <= w as u128 && (w as u128) < 2u128 << l, "usize::ilog2", format!("{w:#x}"));
        }
        let b = r.word().max(1);
        must(w.div_ceil(b) == w / b + usize::from(w % b != 0), "usize::div_ceil", format!("{w} {b}"));
        must(usize::from(w & 1 == 1) == w & 1, "usize::from(bool)", format!("{w}"));
        must(u8::from(w & 1 == 1) as usize == w & 1, "u8::from(bool)", format!("{w}"));
        let mut y = w;
        must(std::mem::replace(&mut y, b) == w && y == b, "mem::replace", format!("{w} {b}"));
        must(Some(&w).copied() == Some(w) && None::<&usize>.copied().is_none(), "Option::copied", format!("{w}"));
    }
    println!("OK assumption bit functions of integers: {n} words");
    for k in 0..200 {
        let v: Vec<usize> = (0..k).map(|_| r.word()).collect();
        let mut m = v.clone();
        must(m == v, "Vec::clone", format!("{v:?}"));
        must(v.capacity() >= v.len(), "Vec::capacity", format!("{v:?}"));
        let b = v.clone().into_boxed_slice();
        must(b[..] == v[..], "Vec::into_boxed_slice", format!("{v:?}"));
        must(b.clone()[..] == b[..], "Box::clone", format!("{v:?}"));
        for i in 0..k {
            must(*unsafe { v.get_unchecked(i) } == v[i], "get_unchecked", format!("{v:?} {i}"));
            let x = r.word();
            let mut e = m.clone();
            *unsafe { m.get_unchecked_mut(i) } = x;
            e[i] = x;
            must(m == e, "get_unchecked_mut", format!("{v:?} {i}"));
        }
    }
    println!("OK assumption vectors, boxes and unchecked access: 200 vectors");
    must((3usize..5).start_bound() == Bound::Included(&3) && (3usize..5).end_bound() == Bound::Excluded(&5), "Range", String::new());
    must((3usize..).start_bound() == Bound::Included(&3) && (3usize..).end_bound() == Bound::Unbounded, "RangeFrom", String::new());
    must((..3usize).start_bound() == Bound::Unbounded && (..3usize).end_bound() == Bound::Excluded(&3), "RangeTo", String::new());
    must((..=3usize).start_bound() == Bound::Unbounded && (..=3usize).end_bound() == Bound::Included(&3), "RangeToInclusive", String::new());
    must(RangeBounds::<usize>::start_bound(&..) == Bound::Unbounded && RangeBounds::<usize>::end_bound(&..) == Bound::Unbounded, "RangeFull", String::new());
    println!("OK assumption bounds of ranges: 5 kinds");
}

/// Shows the pieces it was made of, each through another way of writing to a formatter.
struct Shown<'a>(&'a str, char, u8);
impl std::fmt::Debug for Shown<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        f.write_str("{")?;
        f.write_fmt(format_args!("{0}", self.0))?;
        f.write_char(self.1)?;
        write!(f, "}}{}", self.2)
    }
}

fn formatting(r: &mut Rng) {
    for d in 0..2u8 {
        for _ in 0..100 {
            let c = if r.next() & 1 == 1 { '1' } else { ',' };
            let s: String = (0..r.next() % 9).map(|_| if r.next() & 1 == 1 { '0' } else { ' ' }).collect();
            let mut e = String::new();
            e.push('{');
            e.push_str(&s);
            e.push(c);
            e.push('}');
            e.push(if d == 0 { '0' } else { '1' });
            let x = Shown(&s, c, d);
            must(format!("{x:?}") == e && format!("{x:#?}") == e && format!("{x:20?}") == e, "writes to a formatter", e);
        }
        let e = (b'0' + d) as char;
        must(d.to_string() == e.to_string() && (d as usize).to_string() == e.to_string() && (d as i32).to_string() == e.to_string(), "to_string", d.to_string());
    }
    println!("OK assumption writes to a formatter: 200 texts");
}

#[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
mod intrinsics {
    use super::{must, Rng};
    use std::arch::x86_64::*;

    fn load(x: u128) -> __m128i {
        unsafe { std::mem::transmute(x) }
    }
    fn val(x: __m128i) -> u128 {
        unsafe { std::mem::transmute(x) }
    }
    fn byte(x: u128, i: usize) -> u128 {
        (x >> (8 * i)) & 0xff
    }
    fn lane(x: u128, i: usize) -> u128 {
        (x >> (16 * i)) & 0xffff
    }
    fn s16(x: u128) -> i32 {
        x as i32 - if x >= 32768 { 65536 } else { 0 }
    }
    fn big(r: &mut Rng) -> u128 {
        let x = (r.word() as u128) << 64 | r.word() as u128;
        // lanes that are equal or nearly so
        if r.next() % 3 == 0 { x & 0x8003_8003_8003_8003_8003_8003_8003_8003 } else { x }
    }

    macro_rules! each {
        ($f:ident, $a:expr, [$($n:literal)*], $t:expr) => { $( { let n = $n; let r = val(unsafe { $f::<$n>($a) }); $t(n as usize, r); } )* };
    }
    macro_rules! each2 {
        ($f:ident, $a:expr, $b:expr, [$($n:literal)*], $t:expr) => { $( { let n = $n; let r = val(unsafe { $f::<$n>($a, $b) }); $t(n as usize, r); } )* };
    }

    pub fn test(r: &mut Rng, n: usize) {
        for _ in 0..n {
            let (a, b) = (big(r), big(r));
            let what = || format!("{a:#x} {b:#x}");
            // the memory image of a pointer to two words
            let words = [a as u64, (a >> 64) as u64];
            must(val(unsafe { _mm_loadu_si128(words.as_ptr() as *const __m128i) }) == a, "_mm_loadu_si128", what());
            let e: Vec<i8> = (0..16).map(|i| byte(a, i) as i8).collect();
            let s = val(unsafe { _mm_setr_epi8(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]) });
            let t = val(unsafe { _mm_set_epi8(e[15], e[14], e[13], e[12], e[11], e[10], e[9], e[8], e[7], e[6], e[5], e[4], e[3], e[2], e[1], e[0]) });
            for i in 0..16 {
                let x = if e[i] < 0 { 256 + e[i] as i32 } else { e[i] as i32 } as u128;
                must(byte(s, i) == x, "_mm_setr_epi8", what());
                must(byte(t, i) == x, "_mm_set_epi8", what());
            }
            let s = val(unsafe { _mm_shuffle_epi8(load(a), load(b)) });
            for i in 0..16 {
                let x = if byte(b, i) >= 128 { 0 } else { byte(a, byte(b, i) as usize % 16) };
                must(byte(s, i) == x, "_mm_shuffle_epi8", what());
            }
            each!(_mm_srli_epi16, load(a), [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |n: usize, v| {
                for i in 0..8 {
                    must(lane(v, i) == lane(a, i) >> n, "_mm_srli_epi16", what());
                }
            });
            each2!(_mm_blend_epi16, load(a), load(b), [0 1 2 3 85 127 128 170 204 240 255], |m: usize, v| {
                for i in 0..8 {
                    must(lane(v, i) == if (m >> i) & 1 == 1 { lane(b, i) } else { lane(a, i) }, "_mm_blend_epi16", what());
                }
            });
            let v = val(unsafe { _mm_set1_epi16(a as i16) });
            let g = val(unsafe { _mm_cmpgt_epi16(load(a), load(b)) });
            for i in 0..8 {
                must(s16(lane(v, i)) == a as i16 as i32, "_mm_set1_epi16", what());
                must(lane(g, i) == if s16(lane(a, i)) > s16(lane(b, i)) { 0xffff } else { 0 }, "_mm_cmpgt_epi16", what());
            }
            must(val(unsafe { _mm_and_si128(load(a), load(b)) }) == a & b, "_mm_and_si128", what());
            let m = unsafe { _mm_movemask_epi8(load(a)) };
            must((0..65536).contains(&m), "_mm_movemask_epi8", what());
            for i in 0..16 {
                must((m as u32 >> i) as u128 & 1 == byte(a, i) >> 7, "_mm_movemask_epi8", what());
            }
        }
        println!("OK assumption SIMD intrinsics: {n} pairs of registers");
    }
}

fn main() {
    let seed = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = Rng(seed);
    std_functions(&mut r, 100_000);
    formatting(&mut r);
    #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
    intrinsics::test(&mut r, 20_000);
}
