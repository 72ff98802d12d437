//! Bit vectors, bit slices, word arrays and integers: C01-C07, C15 (bit vectors), C16.
use replay::*;
use std::ops::Bound::{self, *};
use std::rc::Rc;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};

// ------------------------------------------------------------------ helpers

/// A backing of the user's own, which notices every access outside its bits.
#[derive(Clone, Debug)]
struct Own(Vec<bool>);
impl BitGet for Own {
    unsafe fn get_bit_unchecked(&self, i: usize) -> bool {
        if i >= self.0.len() {
            OUTSIDE.with(|o| o.set(true));
            return false;
        }
        self.0[i]
    }
    fn get_bit(&self, i: usize) -> bool {
        self.0[i]
    }
}
impl BitModify for Own {
    unsafe fn set_bit_unchecked(&mut self, i: usize, v: bool) {
        if i >= self.0.len() {
            OUTSIDE.with(|o| o.set(true));
            return;
        }
        self.0[i] = v
    }
    fn set_bit(&mut self, i: usize, v: bool) {
        self.0[i] = v
    }
    unsafe fn flip_bit_unchecked(&mut self, i: usize) {
        if i >= self.0.len() {
            OUTSIDE.with(|o| o.set(true));
            return;
        }
        self.0[i] = !self.0[i]
    }
    fn flip_bit(&mut self, i: usize) {
        self.0[i] = !self.0[i]
    }
}
thread_local! {
    static OUTSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn no_outside(what: &str) -> Case {
    if OUTSIDE.with(|o| o.replace(false)) {
        return Err(format!("{what}: access outside the backing"));
    }
    Ok(())
}

fn pattern(r: &mut Rng, n: usize) -> Vec<bool> {
    match r.below(5) {
        0 => vec![false; n],
        1 => vec![true; n],
        2 => {
            let p = r.range(1, 70);
            (0..n).map(|i| i % p == 0).collect()
        }
        _ => {
            let d = r.range(1, 8);
            (0..n).map(|_| r.below(8) < d).collect()
        }
    }
}
fn bv_of(m: &[bool]) -> BitVec {
    let mut v = BitVec::new(m.len());
    for (i, &b) in m.iter().enumerate() {
        if b {
            v.set(i, true);
        }
    }
    v
}
fn read<B: BitGet>(s: &BitSlice<B>) -> Vec<bool> {
    (0..s.len()).map(|i| s.get(i)).collect()
}
fn words_of(m: &[bool]) -> Vec<usize> {
    let mut w = vec![0usize; m.len().div_ceil(64)];
    for (i, &b) in m.iter().enumerate() {
        w[i / 64] |= (b as usize) << (i % 64);
    }
    w
}
fn first_diff(a: &[bool], b: &[bool]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|&i| a[i] != b[i])
}
fn same_bv(v: &BitVec, m: &[bool], what: &str) -> Case {
    check_eq!(v.len(), m.len(), "{what}: length");
    check_eq!(v.is_empty(), m.is_empty(), "{what}: is_empty");
    let got = read(v);
    if let Some(i) = first_diff(&got, m) {
        return Err(format!("{what}: bit {i} of {} reads {}, expected {}", m.len(), got[i], m[i]));
    }
    Ok(())
}

// ------------------------------------------------------------------ C01

fn write_one(v: &mut BitVec, m: &mut [bool], r: &mut Rng) -> String {
    let i = r.index(m.len());
    let b = r.coin();
    match r.below(12) {
        0 | 1 => {
            v.set(i, b);
            m[i] = b;
            format!("set({i}, {b})")
        }
        2 => {
            v.set_bit(i, b);
            m[i] = b;
            format!("set_bit({i}, {b})")
        }
        3 => {
            unsafe { v.set_unchecked(i, b) };
            m[i] = b;
            format!("set_unchecked({i}, {b})")
        }
        4 => {
            unsafe { v.set_bit_unchecked(i, b) };
            m[i] = b;
            format!("set_bit_unchecked({i}, {b})")
        }
        5 | 6 => {
            v.flip(i);
            m[i] = !m[i];
            format!("flip({i})")
        }
        7 => {
            v.flip_bit(i);
            m[i] = !m[i];
            format!("flip_bit({i})")
        }
        8 => {
            unsafe { v.flip_unchecked(i) };
            m[i] = !m[i];
            format!("flip_unchecked({i})")
        }
        9 => {
            unsafe { v.flip_bit_unchecked(i) };
            m[i] = !m[i];
            format!("flip_bit_unchecked({i})")
        }
        10 => {
            AsMut::<BitSlice<Box<[usize]>>>::as_mut(v).set(i, b);
            m[i] = b;
            format!("as_mut().set({i}, {b})")
        }
        _ => {
            let x: &mut BitSlice<Box<[usize]>> = v;
            x.flip(i);
            m[i] = !m[i];
            format!("deref_mut().flip({i})")
        }
    }
}

fn c01_history(k: u64, r: &mut Rng) -> Case {
    let n = if k < 700 { k as usize } else { r.len(20000) };
    let mut v = BitVec::new(n);
    let mut m = vec![false; n];
    same_bv(&v, &m, &format!("BitVec::new({n})"))?;
    if n == 0 {
        return same_bv(&v.clone(), &m, "clone of empty");
    }
    let mut log = format!("BitVec::new({n})");
    let ops = if n < 300 { 60 } else { 25 };
    let mut other: Option<(BitVec, Vec<bool>)> = None;
    for _ in 0..ops {
        let op = write_one(&mut v, &mut m, r);
        log.push_str(", ");
        log.push_str(&op);
        if n < 300 || r.one_in(8) {
            same_bv(&v, &m, &log)?;
        } else {
            let i = r.index(n);
            check_eq!(v.get(i), m[i], "{log}: get({i})");
        }
        if r.one_in(10) {
            log.push_str(", clone");
            let c = v.clone();
            same_bv(&c, &m, &log)?;
            other = Some((c, m.clone()));
        }
        if let Some((c, cm)) = &mut other {
            if r.one_in(3) {
                let op = write_one(c, cm, r);
                log.push_str(", [clone] ");
                log.push_str(&op);
            }
            if r.one_in(6) {
                std::mem::swap(&mut v, c);
                std::mem::swap(&mut m, cm);
                log.push_str(", swap");
            }
        }
    }
    same_bv(&v, &m, &log)?;
    for i in [r.index(n), r.index(n)] {
        check_eq!(v.get_bit(i), m[i], "{log}: get_bit({i})");
        check_eq!(unsafe { v.get_unchecked(i) }, m[i], "{log}: get_unchecked({i})");
        check_eq!(unsafe { v.get_bit_unchecked(i) }, m[i], "{log}: get_bit_unchecked({i})");
    }
    if let Some((c, cm)) = &other {
        same_bv(c, cm, &format!("{log}: clone"))?;
    }
    Ok(())
}
/// every single position of small vectors, in a random environment
fn c01_each(k: u64, r: &mut Rng) -> Case {
    let n = 1 + (k as usize * 7) % 330;
    let m = pattern(r, n);
    for i in 0..n {
        for op in 0..4 {
            let mut v = bv_of(&m);
            let mut e = m.clone();
            match op {
                0 => {
                    v.set(i, true);
                    e[i] = true
                }
                1 => {
                    v.set(i, false);
                    e[i] = false
                }
                2 => {
                    v.flip(i);
                    e[i] = !e[i]
                }
                _ => {
                    v.flip(i);
                    v.flip(i)
                }
            }
            same_bv(&v, &e, &format!("n={n} bits={m:?} position {i} op {op}"))?;
        }
    }
    Ok(())
}
fn c01_large(_: u64, _: &mut Rng) -> Case {
    for n in [(1usize << 32) + 131, (1 << 33) + 1, (1usize << 31) + 65, (1 << 36) + 7] {
        let mut v = BitVec::new(n);
        check_eq!(v.len(), n, "len of BitVec::new({n})");
        check_eq!(v.raw().len(), n.div_ceil(64), "words of BitVec::new({n})");
        let ps = [0, 63, 64, (1 << 16) + 3, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 64, n - 65, n - 1];
        let ps: std::collections::BTreeSet<usize> = ps.into_iter().filter(|&p| p < n).collect();
        let mut set: Vec<usize> = vec![];
        for &p in &ps {
            v.set(p, true);
            set.push(p);
            for &q in &ps {
                check_eq!(v.get(q), set.contains(&q), "BitVec::new({n}), set {set:?}, get({q})");
            }
        }
        for &p in &ps {
            v.flip(p);
            set.retain(|&x| x != p);
            for &q in &ps {
                check_eq!(v.get(q), set.contains(&q), "BitVec::new({n}), ones at {set:?}, get({q})");
            }
        }
        check!(v.slice(n - 200..).iter().all(|b| !b), "ones left");
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn access(what: &str, c: &mut dyn BitAny, n: usize, r: &mut Rng) -> Case {
    for _ in 0..4 {
        let inside = n > 0 && r.one_in(3);
        let i = if inside { r.index(n) } else { r.outside(n) };
        let p = i >= n;
        check_panics(p, &format!("{what} (length {n}): get_bit({i})"), || c.get_bit_d(i))?;
        let v = r.coin();
        check_panics(p, &format!("{what} (length {n}): set_bit({i}, {v})"), || c.set_bit_d(i, v))?;
        check_panics(p, &format!("{what} (length {n}): flip_bit({i})"), || c.flip_bit_d(i))?;
    }
    no_outside(what)
}
trait BitAny {
    fn get_bit_d(&self, i: usize) -> bool;
    fn set_bit_d(&mut self, i: usize, v: bool);
    fn flip_bit_d(&mut self, i: usize);
}
impl<T: BitGet + BitModify> BitAny for T {
    fn get_bit_d(&self, i: usize) -> bool {
        self.get_bit(i)
    }
    fn set_bit_d(&mut self, i: usize, v: bool) {
        self.set_bit(i, v)
    }
    fn flip_bit_d(&mut self, i: usize) {
        self.flip_bit(i)
    }
}
fn access_slice<B: BitGet + BitModify>(what: &str, s: &mut BitSlice<B>, r: &mut Rng) -> Case {
    let n = s.len();
    for _ in 0..4 {
        let i = if n > 0 && r.one_in(3) { r.index(n) } else { r.outside(n) };
        let p = i >= n;
        let v = r.coin();
        check_panics(p, &format!("{what} (length {n}): get({i})"), || s.get(i))?;
        check_panics(p, &format!("{what} (length {n}): set({i}, {v})"), || s.set(i, v))?;
        check_panics(p, &format!("{what} (length {n}): flip({i})"), || s.flip(i))?;
    }
    access(what, s, n, r)
}
fn c02_bounds(k: u64, r: &mut Rng) -> Case {
    let n = if k < 400 { k as usize } else { r.len(9000) };
    let m = pattern(r, n);
    let mut v = bv_of(&m);
    let what = format!("BitVec::new({n})");
    for _ in 0..6 {
        let i = if n > 0 && r.one_in(3) { r.index(n) } else { r.outside(n) };
        let p = i >= n;
        let b = r.coin();
        check_panics(p, &format!("{what}: get({i})"), || v.get(i))?;
        check_panics(p, &format!("{what}: get_bit({i})"), || v.get_bit(i))?;
        check_panics(p, &format!("{what}: set({i}, {b})"), || v.set(i, b))?;
        check_panics(p, &format!("{what}: set_bit({i}, {b})"), || v.set_bit(i, b))?;
        check_panics(p, &format!("{what}: flip({i})"), || v.flip(i))?;
        check_panics(p, &format!("{what}: flip_bit({i})"), || v.flip_bit(i))?;
    }
    // the storage has to be large enough for what the checks let through
    check!(v.raw().len() * 64 >= n, "{what} has only {} words", v.raw().len());
    access_slice(&format!("{what} as slice"), &mut *v, r)?;
    let (a, b) = sub(r, n);
    access_slice(&format!("{what}.slice_mut({a}..{b})"), &mut v.slice_mut(a..b), r)?;
    let (c, d) = sub(r, b - a);
    access_slice(&format!("{what}.slice_mut({a}..{b}).slice_mut({c}..{d})"), &mut v.slice_mut(a..b).slice_mut(c..d), r)?;
    let s = v.slice(a..b);
    for _ in 0..3 {
        let i = if b > a && r.coin() { r.index(b - a) } else { r.outside(b - a) };
        check_panics(i >= b - a, &format!("{what}.slice({a}..{b}).get({i})"), || s.get(i))?;
    }
    if n > 0 {
        let x = r.below(n);
        let (mut p, mut q) = v.split_at_mut(x);
        access_slice(&format!("{what}.split_at_mut({x}).0"), &mut p, r)?;
        access_slice(&format!("{what}.split_at_mut({x}).1"), &mut q, r)?;
        let (p, q) = v.split_at(x);
        for (s, l, w) in [(p, x, 0), (q, n - x, 1)] {
            let i = r.outside(l);
            check_panics(true, &format!("{what}.split_at({x}).{w}.get({i})"), || s.get(i))?;
        }
    }
    if b > a {
        let x = r.below(b - a);
        let mut s = v.slice_mut(a..b);
        let (mut p, mut q) = s.split_at_mut(x);
        access_slice(&format!("{what}.slice_mut({a}..{b}).split_at_mut({x}).0"), &mut p, r)?;
        access_slice(&format!("{what}.slice_mut({a}..{b}).split_at_mut({x}).1"), &mut q, r)?;
    }
    // a backing that notices every access outside
    let mut o = BitSlice::new(Own(m.clone()), 0, n);
    access_slice(&format!("slice of own backing 0..{n}"), &mut o, r)?;
    let mut o = BitSlice::new(Own(m.clone()), a, b);
    access_slice(&format!("slice of own backing {a}..{b} of {n}"), &mut o, r)?;
    let l = b - a;
    let (c, d) = sub(r, l);
    access_slice(&format!("slice {c}..{d} of slice {a}..{b} of own backing of {n}"), &mut o.slice_mut(c..d), r)?;
    let _ = o.iter().count();
    let _ = o == BitSlice::new(Own(m.clone()), a, b);
    no_outside(&format!("iteration of and comparison with slice {a}..{b} of own backing of {n}"))
}
fn sub(r: &mut Rng, n: usize) -> (usize, usize) {
    let a = if n == 0 { 0 } else { r.index(n + 1) };
    let b = if r.one_in(4) { n } else { r.range(a, n) };
    (a, b)
}
fn c02_prims(_: u64, r: &mut Rng) -> Case {
    macro_rules! prim {
        ($($t:ty),*) => { $({
            let x = r.value() as $t;
            let n = <$t>::BITS as usize;
            let mut y = x;
            access(stringify!($t), &mut y, n, r)?;
            let mut y = Box::new(x);
            access(concat!("Box<", stringify!($t), ">"), &mut y, n, r)?;
            let mut z = x;
            let mut y = &mut z;
            access(concat!("&mut ", stringify!($t)), &mut y, n, r)?;
            let i = r.outside(n);
            let rc = Rc::new(x);
            check_panics(true, &format!("Rc<{}>: get_bit({i})", stringify!($t)), || rc.get_bit(i))?;
            check_panics(true, &format!("&{}: get_bit({i})", stringify!($t)), || BitGet::get_bit(&&x, i))?;
            let i = r.below(n);
            check_panics(false, &format!("Rc<{}>: get_bit({i})", stringify!($t)), || rc.get_bit(i))?;
        })* };
    }
    prim!(u8, u16, u32, u64, usize);
    let k = r.below(6);
    let w: Vec<usize> = (0..k).map(|_| r.value()).collect();
    let mut b = w.clone().into_boxed_slice();
    access(&format!("Box<[usize]> of {k} words"), &mut b, 64 * k, r)?;
    let mut c = w.clone();
    let mut x: &mut [usize] = &mut c;
    access(&format!("&mut [usize] of {k} words"), &mut x, 64 * k, r)?;
    let i = r.outside(64 * k);
    let s: &[usize] = &w;
    check_panics(true, &format!("[usize] of {k} words: get_bit({i})"), || s.get_bit(i))?;
    Ok(())
}
fn c02_large(_: u64, r: &mut Rng) -> Case {
    for n in [(1usize << 32) + 5, (1 << 35) - 1] {
        let mut v = BitVec::new(n);
        for i in [n - 1, n, n + 1, 1 << 32, (1 << 32) - 1, 1 << 40, usize::MAX] {
            check_panics(i >= n, &format!("BitVec::new({n}).get({i})"), || v.get(i))?;
            check_panics(i >= n, &format!("BitVec::new({n}).set_bit({i})"), || v.set_bit(i, true))?;
            check_panics(i >= n, &format!("BitVec::new({n}).flip({i})"), || v.flip(i))?;
        }
        let mut s = v.slice_mut(n - (1 << 20)..);
        for _ in 0..20 {
            access_slice(&format!("last 2^20 bits of BitVec::new({n})"), &mut s, r)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

fn bits_of(x: u64, n: usize) -> Vec<bool> {
    (0..n).map(|i| x & (1u64 << i) != 0).collect()
}
macro_rules! prim_case {
    ($f:ident, $t:ty) => {
        fn $f(x: $t, i: usize) -> Case {
            let n = <$t>::BITS as usize;
            let m = bits_of(x as u64, n);
            let nm = stringify!($t);
            check_eq!(x.get_bit(i), m[i], "{x:#x}{nm}.get_bit({i})");
            check_eq!(unsafe { x.get_bit_unchecked(i) }, m[i], "{x:#x}{nm}.get_bit_unchecked({i})");
            check_eq!(Rc::new(x).get_bit(i), m[i], "Rc({x:#x}{nm}).get_bit({i})");
            check_eq!(Box::new(x).get_bit(i), m[i], "Box({x:#x}{nm}).get_bit({i})");
            check_eq!(unsafe { Rc::new(x).get_bit_unchecked(i) }, m[i], "Rc({x:#x}{nm}).get_bit_unchecked({i})");
            check_eq!(unsafe { Box::new(x).get_bit_unchecked(i) }, m[i], "Box({x:#x}{nm}).get_bit_unchecked({i})");
            check_eq!(BitGet::get_bit(&&x, i), m[i], "(&{x:#x}{nm}).get_bit({i})");
            check_eq!(unsafe { BitGet::get_bit_unchecked(&&x, i) }, m[i], "(&{x:#x}{nm}).get_bit_unchecked({i})");
            {
                let mut y = x;
                let z = &mut y;
                check_eq!(BitGet::get_bit(&z, i), m[i], "(&mut {x:#x}{nm}).get_bit({i})");
                check_eq!(unsafe { BitGet::get_bit_unchecked(&z, i) }, m[i], "(&mut {x:#x}{nm}).get_bit_unchecked({i})");
            }
            let one = (1u64 << i) as $t;
            for v in [false, true] {
                let e = if v { x | one } else { x & !one };
                let mut y = x;
                y.set_bit(i, v);
                check_eq!(y, e, "{x:#x}{nm}.set_bit({i}, {v})");
                let mut y = x;
                unsafe { y.set_bit_unchecked(i, v) };
                check_eq!(y, e, "{x:#x}{nm}.set_bit_unchecked({i}, {v})");
                let mut y = Box::new(x);
                y.set_bit(i, v);
                check_eq!(*y, e, "Box({x:#x}{nm}).set_bit({i}, {v})");
                let mut y = Box::new(x);
                unsafe { y.set_bit_unchecked(i, v) };
                check_eq!(*y, e, "Box({x:#x}{nm}).set_bit_unchecked({i}, {v})");
                let mut y = x;
                BitModify::set_bit(&mut &mut y, i, v);
                check_eq!(y, e, "(&mut {x:#x}{nm}).set_bit({i}, {v})");
                let mut y = x;
                unsafe { BitModify::set_bit_unchecked(&mut &mut y, i, v) };
                check_eq!(y, e, "(&mut {x:#x}{nm}).set_bit_unchecked({i}, {v})");
            }
            let e = x ^ one;
            let mut y = x;
            y.flip_bit(i);
            check_eq!(y, e, "{x:#x}{nm}.flip_bit({i})");
            let mut y = x;
            unsafe { y.flip_bit_unchecked(i) };
            check_eq!(y, e, "{x:#x}{nm}.flip_bit_unchecked({i})");
            let mut y = Box::new(x);
            y.flip_bit(i);
            check_eq!(*y, e, "Box({x:#x}{nm}).flip_bit({i})");
            let mut y = Box::new(x);
            unsafe { y.flip_bit_unchecked(i) };
            check_eq!(*y, e, "Box({x:#x}{nm}).flip_bit_unchecked({i})");
            let mut y = x;
            BitModify::flip_bit(&mut &mut y, i);
            check_eq!(y, e, "(&mut {x:#x}{nm}).flip_bit({i})");
            let mut y = x;
            unsafe { BitModify::flip_bit_unchecked(&mut &mut y, i) };
            check_eq!(y, e, "(&mut {x:#x}{nm}).flip_bit_unchecked({i})");
            Ok(())
        }
    };
}
prim_case!(case_u8, u8);
prim_case!(case_u16, u16);
prim_case!(case_u32, u32);
prim_case!(case_u64, u64);
prim_case!(case_usize, usize);
fn c03_prims(k: u64, r: &mut Rng) -> Case {
    for i in 0..8 {
        case_u8(k as u8, i)?;
    }
    for i in 0..16 {
        case_u16(k as u16, i)?;
    }
    let x = r.value();
    for i in 0..32 {
        case_u32(x as u32, i)?;
    }
    for i in 0..64 {
        case_u64(x as u64, i)?;
        case_usize(r.value(), i)?;
    }
    Ok(())
}
fn c03_words(k: u64, r: &mut Rng) -> Case {
    let n = 1 + k as usize % 9;
    let w: Vec<usize> = (0..n).map(|_| r.value()).collect();
    let m: Vec<bool> = w.iter().flat_map(|&x| bits_of(x as u64, 64)).collect();
    for i in if n < 4 { (0..64 * n).collect::<Vec<_>>() } else { (0..40).map(|_| r.index(64 * n)).collect() } {
        let s: &[usize] = &w;
        check_eq!(s.get_bit(i), m[i], "{w:x?}.get_bit({i})");
        check_eq!(unsafe { s.get_bit_unchecked(i) }, m[i], "{w:x?}.get_bit_unchecked({i})");
        check_eq!(BitGet::get_bit(&s, i), m[i], "(&{w:x?}).get_bit({i})");
        let b: Box<[usize]> = w.clone().into();
        check_eq!(b.get_bit(i), m[i], "Box({w:x?}).get_bit({i})");
        check_eq!(unsafe { b.get_bit_unchecked(i) }, m[i], "Box({w:x?}).get_bit_unchecked({i})");
        let rb: Rc<Box<[usize]>> = Rc::new(b.clone());
        check_eq!(rb.get_bit(i), m[i], "Rc(Box({w:x?})).get_bit({i})");
        for op in 0..3 {
            let mut e = m.clone();
            match op {
                0 => e[i] = false,
                1 => e[i] = true,
                _ => e[i] = !e[i],
            }
            let e = words_of(&e);
            macro_rules! go {
                ($c:expr, $g:expr, $n:literal) => {{
                    let mut c = $c;
                    {
                        let x = &mut c;
                        match op {
                            0 => x.set_bit(i, false),
                            1 => x.set_bit(i, true),
                            _ => x.flip_bit(i),
                        }
                    }
                    check_eq!($g(&c), e, "{} {w:x?} op {op} (0, 1, flip) at {i}", $n);
                    let mut c = $c;
                    {
                        let x = &mut c;
                        unsafe {
                            match op {
                                0 => x.set_bit_unchecked(i, false),
                                1 => x.set_bit_unchecked(i, true),
                                _ => x.flip_bit_unchecked(i),
                            }
                        }
                    }
                    check_eq!($g(&c), e, "{} {w:x?} unchecked op {op} (0, 1, flip) at {i}", $n);
                }};
            }
            go!(b.clone(), |c: &Box<[usize]>| c.to_vec(), "Box<[usize]>");
            let mut y = w.clone();
            {
                let x: &mut [usize] = &mut y;
                match op {
                    0 => x.set_bit(i, false),
                    1 => x.set_bit(i, true),
                    _ => x.flip_bit(i),
                }
            }
            check_eq!(y, e, "[usize] {w:x?} op {op} (0, 1, flip) at {i}");
            let mut y = w.clone();
            {
                let x: &mut [usize] = &mut y;
                unsafe {
                    match op {
                        0 => x.set_bit_unchecked(i, false),
                        1 => x.set_bit_unchecked(i, true),
                        _ => x.flip_bit_unchecked(i),
                    }
                }
            }
            check_eq!(y, e, "[usize] {w:x?} unchecked op {op} (0, 1, flip) at {i}");
            let mut y = w.clone();
            {
                let mut x: &mut [usize] = &mut y;
                let z = &mut x;
                match op {
                    0 => BitModify::set_bit(z, i, false),
                    1 => BitModify::set_bit(z, i, true),
                    _ => BitModify::flip_bit(z, i),
                }
            }
            check_eq!(y, e, "&mut [usize] {w:x?} op {op} (0, 1, flip) at {i}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

type R = (Bound<usize>, Bound<usize>);
fn bounds(r: R, n: usize) -> Option<(usize, usize)> {
    let lo = match r.0 {
        Included(a) => a as u128,
        Excluded(a) => a as u128 + 1,
        Unbounded => 0,
    };
    let hi = match r.1 {
        Included(a) => a as u128 + 1,
        Excluded(a) => a as u128,
        Unbounded => n as u128,
    };
    (lo <= hi && hi <= n as u128).then_some((lo as usize, hi as usize))
}
fn any_bound(r: &mut Rng, p: usize, start: bool) -> Bound<usize> {
    match r.below(5) {
        0 => Unbounded,
        1 | 2 => Included(if start { p } else { p.wrapping_sub(1) }),
        _ => Excluded(if start { p.wrapping_sub(1) } else { p }),
    }
}
fn any_range(r: &mut Rng, n: usize) -> R {
    let (a, b) = sub(r, n);
    match r.below(8) {
        0 => {
            let x = r.outside(n);
            (any_bound(r, a, true), any_bound(r, x, false))
        }
        1 => {
            let (x, y) = (r.outside(n), r.outside(n));
            (any_bound(r, x, true), any_bound(r, y, false))
        }
        2 => {
            let y = r.below(n + 3);
            (any_bound(r, b, true), any_bound(r, y, false))
        }
        _ => (any_bound(r, a, true), any_bound(r, b, false)),
    }
}
macro_rules! cut {
    ($native:expr, $r:expr, $s:expr, $m:ident) => {
        match $r {
            (Included(a), Excluded(b)) if $native => $s.$m(a..b),
            (Included(a), Included(b)) if $native => $s.$m(a..=b),
            (Included(a), Unbounded) if $native => $s.$m(a..),
            (Unbounded, Excluded(b)) if $native => $s.$m(..b),
            (Unbounded, Included(b)) if $native => $s.$m(..=b),
            (Unbounded, Unbounded) if $native => $s.$m(..),
            r => $s.$m(r),
        }
    };
}
macro_rules! slice_level {
    ($name:ident, $next:ident) => {
        /// m is what s shows
        fn $name<B: BitGet + BitModify>(what: &str, s: &mut BitSlice<B>, m: &mut Vec<bool>, r: &mut Rng) -> Case {
            let n = m.len();
            check_eq!(s.len(), n, "{what}: len");
            let rg = any_range(r, n);
            let native = r.coin();
            let ok = bounds(rg, n);
            check_panics(ok.is_none(), &format!("{what} (length {n}): slice({rg:?})"), || cut!(native, rg, s, slice).len())?;
            check_panics(ok.is_none(), &format!("{what} (length {n}): slice_mut({rg:?})"), || {
                cut!(native, rg, s, slice_mut).len()
            })?;
            if let Some((a, b)) = ok {
                let w = format!("{what}.slice({rg:?})");
                {
                    let t = cut!(native, rg, s, slice);
                    check_eq!(t.len(), b - a, "{w}: len");
                    check_eq!(read(&t), m[a..b].to_vec(), "{w}: bits");
                    let t = unsafe { cut!(native, rg, s, slice_unchecked) };
                    check_eq!(t.len(), b - a, "{what}.slice_unchecked({rg:?}): len");
                    check_eq!(read(&t), m[a..b].to_vec(), "{what}.slice_unchecked({rg:?}): bits");
                }
                let checked = r.coin();
                let w = format!("{what}.slice{}_mut({rg:?})", if checked { "" } else { "_unchecked" });
                {
                    let mut t = if checked {
                        cut!(native, rg, s, slice_mut)
                    } else {
                        unsafe { cut!(native, rg, s, slice_unchecked_mut) }
                    };
                    check_eq!(t.len(), b - a, "{w}: len");
                    check_eq!(read(&t), m[a..b].to_vec(), "{w}: bits");
                    let mut mm = m[a..b].to_vec();
                    if b > a {
                        for _ in 0..4 {
                            let i = r.index(b - a);
                            match r.below(4) {
                                0 => {
                                    t.set(i, true);
                                    mm[i] = true
                                }
                                1 => {
                                    t.set_bit(i, false);
                                    mm[i] = false
                                }
                                2 => {
                                    t.flip(i);
                                    mm[i] = !mm[i]
                                }
                                _ => {
                                    unsafe { t.set_unchecked(i, true) };
                                    mm[i] = true
                                }
                            }
                            check_eq!(t.get(i), mm[i], "{w}: bit {i} after writing it");
                        }
                    }
                    check_eq!(read(&t), mm, "{w}: bits after writes");
                    $next(&w, &mut t, &mut mm, r)?;
                    check_eq!(read(&t), mm, "{w}: bits after writes through slices of it");
                    m[a..b].copy_from_slice(&mm);
                }
                check_eq!(read(s), *m, "{what}: bits after writes through its slice {rg:?}");
            }
            no_outside(what)
        }
    };
}
fn level_end<B: BitGet + BitModify>(what: &str, s: &mut BitSlice<B>, m: &mut Vec<bool>, _: &mut Rng) -> Case {
    check_eq!(read(s), *m, "{what}: bits");
    Ok(())
}
slice_level!(level3, level_end);
slice_level!(level2, level3);
slice_level!(level1, level2);
fn c04_windows(k: u64, r: &mut Rng) -> Case {
    let n = if k < 200 { k as usize } else { r.len(2000) };
    let mut m = pattern(r, n);
    let mut v = bv_of(&m);
    for _ in 0..6 {
        level1(&format!("BitVec of {n}"), &mut *v, &mut m, r)?;
        same_bv(&v, &m, &format!("BitVec of {n} after writes through slices"))?;
        check_eq!(v.raw().to_vec(), words_of(&m), "raw words after writes through slices");
    }
    let (a, b) = sub(r, n);
    let mut o = BitSlice::new(Own(m.clone()), a, b);
    let mut mm = m[a..b].to_vec();
    level1(&format!("own backing of {n} seen through {a}..{b}"), &mut o, &mut mm, r)?;
    m[a..b].copy_from_slice(&mm);
    check_eq!(o.backing().0, m, "own backing after writes through slice {a}..{b}");
    let mut x = r.next();
    let before = x;
    let mut mx = bits_of(x, 64);
    let (a, b) = sub(r, 64);
    let mut mm = mx[a..b].to_vec();
    level1(&format!("{before:#x}u64 seen through {a}..{b}"), &mut BitSlice::new(&mut x, a, b), &mut mm, r)?;
    mx[a..b].copy_from_slice(&mm);
    check_eq!(bits_of(x, 64), mx, "{before:#x}u64 after writes through slice {a}..{b}");
    Ok(())
}
/// all ranges of small containers
fn c04_all(k: u64, r: &mut Rng) -> Case {
    let n = k as usize % 12;
    let m = pattern(r, n);
    let v = bv_of(&m);
    let off = r.below(70);
    let mut big = pattern(r, off);
    big.extend(&m);
    big.extend(pattern(r, 7));
    let bigv = bv_of(&big);
    let inner = bigv.slice(off..off + n);
    let mut bs = vec![Unbounded];
    for i in (0..n + 3).chain([usize::MAX, usize::MAX - 1, 1 << 32, 1 << 63, usize::MAX - off, usize::MAX - off - 1]) {
        bs.push(Included(i));
        bs.push(Excluded(i));
    }
    for &lo in &bs {
        for &hi in &bs {
            let rg = (lo, hi);
            let e = bounds(rg, n).map(|(a, b)| m[a..b].to_vec());
            for (w, nested) in [("slice of vector", false), ("slice of slice", true)] {
                let go = || {
                    if nested {
                        read(&inner.slice(rg))
                    } else {
                        read(&v.slice(rg))
                    }
                };
                match &e {
                    None => check_panics(true, &format!("{w} of length {n}: {rg:?}"), go)?,
                    Some(x) => check_eq!(go(), *x, "{w} of length {n} with bits {m:?}: {rg:?}"),
                }
                let mut v2 = v.clone();
                let mut big2 = bigv.clone();
                check_panics(e.is_none(), &format!("mutable {w} of length {n}: {rg:?}"), || {
                    if nested {
                        let mut i2 = big2.slice_mut(off..off + n);
                        let x = read(&i2.slice_mut(rg));
                        x
                    } else {
                        read(&v2.slice_mut(rg))
                    }
                })?;
            }
        }
    }
    Ok(())
}
fn c04_large(_: u64, _: &mut Rng) -> Case {
    let n = (1usize << 33) + 100;
    let mut v = BitVec::new(n);
    let base = (1usize << 32) - 50;
    {
        let mut s = v.slice_mut(base..);
        check_eq!(s.len(), n - base, "length of slice {base}.. of {n}");
        let mut t = s.slice_mut(60..1 << 32);
        check_eq!(t.len(), (1 << 32) - 60, "length of nested slice");
        t.set(0, true);
        t.flip((1 << 32) - 61);
        check!(t.get(0) && t.get((1 << 32) - 61) && !t.get(1), "bits of nested slice");
    }
    for i in [base + 60, base + (1 << 32) - 1] {
        check!(v.get(i), "bit {i} written through nested slices");
        check!(!v.get(i - 1) && !v.get(i + 1), "neighbours of bit {i}");
    }
    check!(!v.get(10) && !v.get(base), "other bits");
    Ok(())
}

// ------------------------------------------------------------------ C05

fn split_checks<B: BitGet + BitModify>(what: &str, s: &mut BitSlice<B>, m: &mut Vec<bool>, r: &mut Rng) -> Case {
    let n = m.len();
    let i = if n > 0 && !r.one_in(4) { r.index(n) } else { r.outside(n) };
    check_panics(i >= n, &format!("{what} (length {n}): split_at({i})"), || s.split_at(i).0.len())?;
    check_panics(i >= n, &format!("{what} (length {n}): split_at_mut({i})"), || s.split_at_mut(i).0.len())?;
    if i >= n {
        return Ok(());
    }
    {
        let (a, b) = s.split_at(i);
        check_eq!((a.len(), b.len()), (i, n - i), "{what}: lengths of split_at({i})");
        check_eq!(read(&a), m[..i].to_vec(), "{what}: first half of split_at({i})");
        check_eq!(read(&b), m[i..].to_vec(), "{what}: second half of split_at({i})");
        if n > i + 1 {
            let j = r.below(n - i);
            let (c, d) = b.split_at(j);
            check_eq!(read(&c), m[i..i + j].to_vec(), "{what}: split_at({i}).1.split_at({j}).0");
            check_eq!(read(&d), m[i + j..].to_vec(), "{what}: split_at({i}).1.split_at({j}).1");
        }
    }
    let mut log = format!("{what}: split_at_mut({i})");
    {
        let (mut a, mut b) = s.split_at_mut(i);
        check_eq!((a.len(), b.len()), (i, n - i), "{log}: lengths");
        let (l, h) = m.split_at_mut(i);
        for _ in 0..10 {
            let first = i > 0 && r.coin();
            let (t, mt) = if first { (&mut a, &mut *l) } else { (&mut b, &mut *h) };
            let j = r.index(mt.len());
            let v = r.coin();
            match r.below(3) {
                0 => {
                    t.flip(j);
                    mt[j] = !mt[j];
                    log.push_str(&format!(", half {}: flip({j})", !first as u8));
                }
                1 => {
                    t.set(j, v);
                    mt[j] = v;
                    log.push_str(&format!(", half {}: set({j}, {v})", !first as u8));
                }
                _ => {
                    t.set_bit(j, v);
                    mt[j] = v;
                    log.push_str(&format!(", half {}: set_bit({j}, {v})", !first as u8));
                }
            }
            check_eq!(read(&a), l.to_vec(), "{log}: first half");
            check_eq!(read(&b), h.to_vec(), "{log}: second half");
        }
    }
    check_eq!(read(s), *m, "{log}: original afterwards");
    no_outside(&log)
}
fn c05_split(k: u64, r: &mut Rng) -> Case {
    let n = if k < 300 { k as usize } else { r.len(1500) };
    let mut m = pattern(r, n);
    let mut v = bv_of(&m);
    for _ in 0..3 {
        split_checks(&format!("BitVec of {n}"), &mut *v, &mut m, r)?;
        same_bv(&v, &m, "vector after split writes")?;
        check_eq!(v.raw().to_vec(), words_of(&m), "raw words after split writes");
        let (a, b) = sub(r, n);
        let mut mm = m[a..b].to_vec();
        split_checks(&format!("BitVec of {n}, slice {a}..{b}"), &mut v.slice_mut(a..b), &mut mm, r)?;
        m[a..b].copy_from_slice(&mm);
        same_bv(&v, &m, &format!("vector after split writes through slice {a}..{b}"))?;
    }
    let (a, b) = sub(r, n);
    let mut o = BitSlice::new(Own(m.clone()), a, b);
    let mut mm = m[a..b].to_vec();
    split_checks(&format!("own backing of {n}, slice {a}..{b}"), &mut o, &mut mm, r)?;
    m[a..b].copy_from_slice(&mm);
    check_eq!(o.backing().0, m, "own backing after split writes through slice {a}..{b}");
    Ok(())
}
fn c05_large(_: u64, _: &mut Rng) -> Case {
    let n = (1usize << 33) + 100;
    let mut v = BitVec::new(n);
    for i in [1 << 12, (1 << 16) + 1, (1 << 24) - 1, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 63, n - 1] {
        {
            let (mut a, mut b) = v.split_at_mut(i);
            check_eq!((a.len(), b.len()), (i, n - i), "BitVec::new({n}): lengths of split_at_mut({i})");
            a.flip(i - 1);
            b.flip(0);
        }
        let (a, b) = v.split_at(i);
        check_eq!((a.len(), b.len()), (i, n - i), "BitVec::new({n}): lengths of split_at({i})");
        check!(a.get(i - 1) && b.get(0), "BitVec::new({n}): bits around {i} flipped through split_at_mut({i})");
        check!(v.get(i - 1) && v.get(i), "BitVec::new({n}): bits {} and {i} flipped through split_at_mut({i})", i - 1);
        for j in [i - 2, i + 1] {
            check!(j >= n || !v.get(j), "BitVec::new({n}): bit {j} after flips at {i} - 1 and {i}");
        }
        v.flip(i - 1);
        v.flip(i);
    }
    Ok(())
}
fn c05_all(k: u64, r: &mut Rng) -> Case {
    let n = k as usize % 140;
    let m = pattern(r, n);
    let off = r.below(130);
    let mut big = pattern(r, off);
    big.extend(&m);
    big.extend(pattern(r, 70));
    let mut v = bv_of(&big);
    for i in 0..n + 2 {
        let s = v.slice(off..off + n);
        if i >= n {
            check_panics(true, &format!("slice of length {n}: split_at({i})"), || s.split_at(i).1.len())?;
            let mut s = v.slice_mut(off..off + n);
            check_panics(true, &format!("slice of length {n}: split_at_mut({i})"), || s.split_at_mut(i).1.len())?;
            continue;
        }
        let (a, b) = s.split_at(i);
        let mut t = read(&a);
        t.extend(read(&b));
        check!(a.len() == i && t == m, "slice {off}..{} : split_at({i})", off + n);
        let mut s = v.slice_mut(off..off + n);
        {
            let (mut a, mut b) = s.split_at_mut(i);
            check!(a.len() == i && b.len() == n - i, "slice {off}..{}: split_at_mut({i}) lengths", off + n);
            for j in [0, i / 2, i.wrapping_sub(1)] {
                if j < i {
                    a.flip(j);
                    check_eq!(a.get(j), !m[j], "first half, bit {j} flipped");
                    a.flip(j);
                }
            }
            for j in [0, (n - i) / 2, n - i - 1] {
                b.flip(j);
                check_eq!(b.get(j), !m[i + j], "second half, bit {j} flipped");
                b.flip(j);
            }
        }
        same_bv(&v, &big, &format!("vector after flipping twice through halves of slice {off}..{} split at {i}", off + n))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn iter_checks<I: Iterator<Item = bool> + ExactSizeIterator>(what: &str, mut it: I, m: &[bool], every: bool) -> Case {
    for (i, &b) in m.iter().enumerate() {
        if every || i < 3 || i + 3 > m.len() || i % 17 == 0 {
            check_eq!(it.len(), m.len() - i, "{what}: len after {i} bits");
            check_eq!(it.size_hint(), (m.len() - i, Some(m.len() - i)), "{what}: size_hint after {i} bits");
        }
        check_eq!(it.next(), Some(b), "{what}: bit {i} of {}", m.len());
    }
    for j in 0..4 {
        check_eq!(it.len(), 0, "{what}: len at the end, {j} calls of next after it");
        check_eq!(it.size_hint(), (0, Some(0)), "{what}: size_hint at the end, {j} calls of next after it");
        check_eq!(it.next(), None, "{what}: call {j} of next after the end");
    }
    Ok(())
}
fn more_iter<I: Iterator<Item = bool> + ExactSizeIterator>(what: &str, mk: impl Fn() -> I, m: &[bool], r: &mut Rng) -> Case {
    iter_checks(what, mk(), m, m.len() < 200)?;
    check_eq!(mk().collect::<Vec<_>>(), m.to_vec(), "{what}: collect");
    check_eq!(mk().count(), m.len(), "{what}: count");
    check_eq!(mk().last(), m.last().copied(), "{what}: last");
    let j = r.below(m.len() + 3);
    let mut it = mk();
    check_eq!(it.nth(j), m.get(j).copied(), "{what}: nth({j})");
    let rest: Vec<bool> = m.iter().skip(j + 1).copied().collect();
    iter_checks(&format!("{what} after nth({j})"), it, &rest, false)?;
    check_eq!(mk().fold(0usize, |a, b| a + b as usize), m.iter().filter(|&&b| b).count(), "{what}: fold");
    check_eq!(mk().skip(j).step_by(3).collect::<Vec<_>>(), m.iter().copied().skip(j).step_by(3).collect::<Vec<_>>(), "{what}: skip({j}).step_by(3)");
    check_eq!(mk().position(|b| b), m.iter().position(|&b| b), "{what}: position");
    Ok(())
}
fn c06_iter(k: u64, r: &mut Rng) -> Case {
    let n = if k < 300 { k as usize } else { r.len(3000) };
    let m = pattern(r, n);
    let mut v = bv_of(&m);
    more_iter(&format!("iter of BitVec {n}"), || v.iter(), &m, r)?;
    more_iter(&format!("&BitVec {n}"), || (&v).into_iter(), &m, r)?;
    let (a, b) = sub(r, n);
    let s = v.slice(a..b);
    more_iter(&format!("iter of slice {a}..{b} of {n}"), || s.iter(), &m[a..b], r)?;
    more_iter(&format!("&slice {a}..{b} of {n}"), || (&s).into_iter(), &m[a..b], r)?;
    more_iter(&format!("slice {a}..{b} of {n} by value"), || v.slice(a..b).into_iter(), &m[a..b], r)?;
    more_iter(&format!("own backing, slice {a}..{b} of {n} by value"), || BitSlice::new(Own(m.clone()), a, b).into_iter(), &m[a..b], r)?;
    no_outside(&format!("iteration of slice {a}..{b} of {n}"))?;
    more_iter(&format!("boxed words, slice {a}..{b} of {n} by value"), || BitSlice::new(v.raw().to_vec().into_boxed_slice(), a, b).into_iter(), &m[a..b], r)?;
    let (c, d) = sub(r, b - a);
    let t = s.slice(c..d);
    more_iter(&format!("slice {c}..{d} of slice {a}..{b} of {n}"), || t.iter(), &m[a + c..a + d], r)?;
    let mut sm = v.slice_mut(a..b);
    iter_checks(&format!("iter of mutable slice {a}..{b} of {n}"), sm.iter(), &m[a..b], false)?;
    iter_checks(&format!("iter of slice_mut {c}..{d} of slice_mut {a}..{b} of {n}, by value"), sm.slice_mut(c..d).into_iter(), &m[a + c..a + d], false)?;
    let x = r.next();
    iter_checks(&format!("{x:#x}u64 as slice"), BitSlice::new(x, 0, 64).into_iter(), &bits_of(x, 64), true)?;
    Ok(())
}
fn c06_large(_: u64, _: &mut Rng) -> Case {
    let n = (1usize << 32) + 77;
    let mut v = BitVec::new(n);
    let p = (1usize << 32) + 5;
    v.set(p, true);
    check_eq!((&v).into_iter().len(), n, "len of iteration over &BitVec of {n} bits");
    for a in [0, 5, 64] {
        let s = v.slice(a..);
        check_eq!(s.iter().len(), n - a, "len of iter of slice {a}.. of {n} bits");
        check_eq!((&s).into_iter().len(), n - a, "len of iteration over &slice {a}.. of {n} bits");
        check_eq!((&s).into_iter().size_hint(), (n - a, Some(n - a)), "size_hint of iteration over &slice {a}.. of {n} bits");
        check_eq!(s.into_iter().len(), n - a, "len of iteration over slice {a}.. of {n} bits by value");
    }
    let mut it = v.iter();
    check_eq!(it.len(), n, "len of iterator over {n} bits");
    let mut i = 0usize;
    let mut ones = vec![];
    while let Some(b) = it.next() {
        if b {
            ones.push(i);
        }
        i += 1;
        if i & 0xfff_ffff == 0 {
            check_eq!(it.len(), n - i, "len after {i} bits");
        }
    }
    check_eq!(i, n, "number of bits");
    check_eq!(ones, vec![p], "positions of ones");
    Ok(())
}

// ------------------------------------------------------------------ C07

fn eq_checks<A: BitGet, B: BitGet>(what: &str, s: &BitSlice<A>, t: &BitSlice<B>, e: bool) -> Case {
    check_eq!(s == t, e, "{what}: ==");
    check_eq!(s != t, !e, "{what}: !=");
    check_eq!(t == s, e, "{what}: == the other way round");
    Ok(())
}
fn c07_eq(k: u64, r: &mut Rng) -> Case {
    let n = if k < 260 { k as usize } else { r.len(1500) };
    let m = pattern(r, n);
    let mut x = m.clone();
    match r.below(6) {
        0 | 1 => {}
        2 if n > 0 => x.truncate(r.below(n)),
        3 => {
            let b = r.coin();
            x.extend((0..r.range(1, 70)).map(|_| b));
        }
        4 if n > 0 => {
            // one bit differs
            let i = r.index(n);
            x[i] = !x[i];
        }
        5 if n > 1 => {
            let (i, j) = (r.index(n), r.index(n));
            x.swap(i, j);
        }
        _ => {}
    }
    let e = m == x;
    let (o1, o2) = (r.below(140), r.below(140));
    let place = |r: &mut Rng, o: usize, m: &[bool]| {
        let mut b = pattern(r, o);
        b.extend(m);
        let t = r.below(70);
        b.extend(pattern(r, t));
        b
    };
    let (b1, b2) = (place(r, o1, &m), place(r, o2, &x));
    let (mut v1, mut v2) = (bv_of(&b1), bv_of(&b2));
    let what = format!("slice at {o1} with {n} bits {m:?} and slice at {o2} with {} bits {x:?}", x.len());
    let (w1, w2) = (words_of(&b1), words_of(&b2));
    {
        let (s, t) = (v1.slice(o1..o1 + n), v2.slice(o2..o2 + x.len()));
        eq_checks(&what, &s, &t, e)?;
        eq_checks(&format!("{what} (own backing)"), &s, &BitSlice::new(Own(b2.clone()), o2, o2 + x.len()), e)?;
        let z: &[usize] = &w2;
        eq_checks(&format!("{what} (words)"), &s, &BitSlice::new(z, o2, o2 + x.len()), e)?;
        eq_checks(&format!("{what} (nested)"), &s.slice(..), &t.slice(..), e)?;
        check!(s == s, "{what}: reflexive");
    }
    let q: &[usize] = &w1;
    let s = BitSlice::new(q, o1, o1 + n);
    {
        let t = v2.slice_mut(o2..o2 + x.len());
        eq_checks(&format!("{what} (mutable)"), &s, &t, e)?;
    }
    let t2 = v2.slice_mut(o2..o2 + x.len());
    let t1 = v1.slice_mut(o1..o1 + n);
    eq_checks(&format!("{what} (both mutable)"), &t1, &t2, e)?;
    if n <= 64 && x.len() <= 64 {
        let (p, q) = (words_of(&m).first().copied().unwrap_or(0), words_of(&x).first().copied().unwrap_or(0));
        // bits outside the window differ
        let p = p | (r.next() as usize).checked_shl(n as u32).unwrap_or(0);
        let q = q | (r.next() as usize).checked_shl(x.len() as u32).unwrap_or(0);
        eq_checks(&format!("{what} (integers {p:#x}, {q:#x})"), &BitSlice::new(p, 0, n), &BitSlice::new(q as u64, 0, x.len()), e)?;
    }
    no_outside(&what)
}
/// one bit of difference at every position
fn c07_each(k: u64, r: &mut Rng) -> Case {
    let n = 1 + k as usize % 200;
    let m = pattern(r, n);
    let (o1, o2) = (r.below(70), r.below(70));
    let mut b1 = pattern(r, o1);
    b1.extend(&m);
    let v1 = bv_of(&b1);
    let s = v1.slice(o1..);
    for i in 0..n {
        let mut b2 = pattern(r, o2);
        b2.extend(&m);
        b2[o2 + i] = !b2[o2 + i];
        let mut v2 = bv_of(&b2);
        eq_checks(&format!("{n} bits {m:?} at {o1} and the same at {o2} with bit {i} inverted"), &s, &v2.slice(o2..), false)?;
        v2.flip(o2 + i);
        eq_checks(&format!("{n} bits {m:?} at {o1} and at {o2}"), &s, &v2.slice(o2..), true)?;
    }
    Ok(())
}

fn c07_lengths(_: u64, _: &mut Rng) -> Case {
    // lengths that only differ above some bit; the correct answer needs no look at the bits
    let v = BitVec::new((1 << 33) + 700);
    for e in 6..34 {
        for a in [0usize, 1, 63, 64, 600] {
            let b = a + (1 << e);
            eq_checks(&format!("{a} zeros and {b} zeros"), &v.slice(..a), &v.slice(..b), false)?;
            eq_checks(&format!("{a} zeros and {b} zeros at 64"), &v.slice(..a), &v.slice(64..64 + b), false)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15 (bit vectors)

fn c15_raw(k: u64, r: &mut Rng) -> Case {
    let n = if k < 700 { k as usize } else { r.len(9000) };
    let mut v = BitVec::new(n);
    let mut m = vec![false; n];
    check_eq!(v.raw().to_vec(), vec![0usize; n.div_ceil(64)], "raw words of BitVec::new({n})");
    if n == 0 {
        return Ok(());
    }
    let mut log = format!("BitVec::new({n})");
    for _ in 0..30 {
        let op = write_one(&mut v, &mut m, r);
        log.push_str(", ");
        log.push_str(&op);
        if r.one_in(4) {
            let (a, b) = sub(r, n);
            if a < b {
                let i = r.index(b - a);
                v.slice_mut(a..b).flip(i);
                m[a + i] = !m[a + i];
                log.push_str(&format!(", slice_mut({a}..{b}).flip({i})"));
            }
        }
        if n < 300 || r.one_in(10) {
            check_eq!(v.raw().to_vec(), words_of(&m), "{log}: raw words");
        }
    }
    let w = words_of(&m);
    check_eq!(v.raw().to_vec(), w, "{log}: raw words");
    check_eq!(AsRef::<[usize]>::as_ref(&v).to_vec(), w, "{log}: as_ref");
    check_eq!(v.backing().to_vec(), w, "{log}: backing");
    check_eq!(v.clone().raw().to_vec(), w, "{log}: raw words of clone");
    check_eq!(AsRef::<BitSlice<Box<[usize]>>>::as_ref(&v).backing().to_vec(), w, "{log}: as_ref as slice");
    for i in 0..n {
        v.set(i, true);
    }
    check_eq!(v.raw().to_vec(), words_of(&vec![true; n]), "BitVec::new({n}) with all bits set: raw words");
    Ok(())
}

// ------------------------------------------------------------------ C16

fn c16_debug(k: u64, r: &mut Rng) -> Case {
    let n = if k < 200 { k as usize } else { r.len(2000) };
    let m = pattern(r, n);
    let v = bv_of(&m);
    let e = format!("{{{}}}", m.iter().map(|&b| if b { "1" } else { "0" }).collect::<Vec<_>>().join(", "));
    check_eq!(format!("{v:?}"), e, "Debug of {m:?}");
    Ok(())
}

static SUBS: &[Sub] = &[
    ("C01", "history", c01_history),
    ("C01", "each-position", c01_each),
    ("C02", "bounds", c02_bounds),
    ("C02", "integers-and-words", c02_prims),
    ("C03", "integers", c03_prims),
    ("C03", "words", c03_words),
    ("C04", "windows", c04_windows),
    ("C04", "all-ranges", c04_all),
    ("C05", "split", c05_split),
    ("C05", "all-splits", c05_all),
    ("C06", "iteration", c06_iter),
    ("C07", "equality", c07_eq),
    ("C07", "one-bit", c07_each),
    ("C15", "raw-words", c15_raw),
    ("C16", "debug", c16_debug),
];
static HEAVY: &[Sub] = &[
    ("C01", "large", c01_large),
    ("C02", "large", c02_large),
    ("C04", "large", c04_large),
    ("C05", "large", c05_large),
    ("C06", "large", c06_large),
    ("C07", "lengths", c07_lengths),
];
fn main() {
    main_with(SUBS, HEAVY)
}
