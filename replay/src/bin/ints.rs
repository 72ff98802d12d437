//! Packed integer vectors: C08-C10, C15 (integer vectors).
use replay::*;
use succinct_neo::int_vec::{IntAccess, IntVec};

fn max(w: usize) -> usize {
    usize::MAX >> (64 - w)
}
fn val(r: &mut Rng, w: usize) -> usize {
    match r.below(5) {
        0 => max(w),
        1 => 1 << (w - 1),
        _ => r.value() & max(w),
    }
}
fn too_large(r: &mut Rng, w: usize) -> usize {
    match r.below(4) {
        0 => max(w) + 1,
        1 => usize::MAX,
        2 => 1 << r.range(w, 63),
        _ => (r.next() as usize).max(max(w) + 1),
    }
}
fn packed(m: &[usize], w: usize) -> Vec<usize> {
    let bits = m.len() * w;
    let mut d = vec![0usize; bits / 64 + 1];
    for (i, &x) in m.iter().enumerate() {
        for b in 0..w {
            let p = i * w + b;
            d[p / 64] |= (x >> b & 1) << (p % 64);
        }
    }
    d
}
fn create(r: &mut Rng, w: usize) -> (IntVec, String) {
    if r.coin() {
        (IntVec::new(w), format!("IntVec::new({w})"))
    } else {
        let c = r.below(300);
        (IntVec::with_capacity(w, c), format!("IntVec::with_capacity({w}, {c})"))
    }
}
fn same(v: &IntVec, m: &[usize], log: &str) -> Case {
    for (i, &x) in m.iter().enumerate() {
        check_eq!(v.get(i), x, "{log}: get({i})");
    }
    check_eq!(v.is_empty(), m.is_empty(), "{log}: is_empty");
    Ok(())
}
fn step(v: &mut IntVec, m: &mut Vec<usize>, w: usize, r: &mut Rng, log: &mut String) {
    if m.is_empty() || r.below(3) < 2 {
        let x = val(r, w);
        log.push_str(&format!(", push({x:#x})"));
        v.push(x);
        m.push(x);
    } else {
        let i = r.index(m.len());
        let x = val(r, w);
        if r.coin() {
            log.push_str(&format!(", set({i}, {x:#x})"));
            v.set(i, x);
        } else {
            log.push_str(&format!(", set_unchecked({i}, {x:#x})"));
            unsafe { v.set_unchecked(i, x) };
        }
        m[i] = x;
    }
}

fn c08_history(k: u64, r: &mut Rng) -> Case {
    let w = 1 + k as usize % 64;
    let (mut v, mut log) = create(r, w);
    let mut m = vec![];
    same(&v, &m, &log)?;
    for _ in 0..r.range(1, 260) {
        step(&mut v, &mut m, w, r, &mut log);
        if m.len() < 70 || r.one_in(20) {
            same(&v, &m, &log)?;
        }
    }
    same(&v, &m, &log)?;
    for (i, &x) in m.iter().enumerate() {
        check_eq!(unsafe { v.get_unchecked(i) }, x, "{log}: get_unchecked({i})");
    }
    Ok(())
}
/// every position set to the extremes between elements of the other extreme
fn c08_each(k: u64, _: &mut Rng) -> Case {
    let w = 1 + k as usize % 64;
    let n = 130;
    for (a, b) in [(0, max(w)), (max(w), 0), (max(w) / 3, max(w) - max(w) / 3)] {
        let mut v = IntVec::new(w);
        let mut m = vec![];
        for i in 0..n {
            v.push(a);
            m.push(a);
            check_eq!(v.get(i), a, "width {w}, {} elements {a:#x}: get({i})", i + 1);
        }
        for i in 0..n {
            v.set(i, b);
            m[i] = b;
            same(&v, &m, &format!("width {w}, {n} elements {a:#x}, set({i}, {b:#x})"))?;
            v.set(i, a);
            m[i] = a;
            same(&v, &m, &format!("width {w}, {n} elements {a:#x}, set({i}, {b:#x}), set({i}, {a:#x})"))?;
        }
    }
    Ok(())
}
fn c08_large(_: u64, r: &mut Rng) -> Case {
    for w in [63usize, 5, 64] {
        let n = (1usize << 32) / w + 100;
        let mut v = IntVec::with_capacity(w, n);
        let f = |i: usize| i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - w);
        for i in 0..n {
            v.push(f(i));
        }
        for t in 0..200_000 {
            let i = if t < 200 { n - 1 - t } else { r.below(n) };
            check_eq!(v.get(i), f(i), "width {w}, {n} elements: get({i})");
        }
        let i = n - 2;
        v.set(i, 0);
        for (j, e) in [(i - 1, f(i - 1)), (i, 0), (i + 1, f(i + 1))] {
            check_eq!(v.get(j), e, "width {w}, {n} elements: get({j}) after set({i}, 0)");
        }
    }
    Ok(())
}

fn c09_reject(k: u64, r: &mut Rng) -> Case {
    let w = 1 + k as usize % 64;
    let (mut v, mut log) = create(r, w);
    let mut m: Vec<usize> = vec![];
    for _ in 0..r.below(40) {
        step(&mut v, &mut m, w, r, &mut log);
    }
    for _ in 0..10 {
        let n = m.len();
        if n > 0 {
            let i = r.index(n);
            let x = val(r, w);
            check_panics(false, &format!("{log}: set({i}, {x:#x})"), || v.set(i, x))?;
            m[i] = x;
            check_panics(false, &format!("{log}: get({i})"), || v.get(i))?;
            if w < 64 {
                let x = too_large(r, w);
                check_panics(true, &format!("{log}: set({i}, {x:#x})"), || v.set(i, x))?;
            }
        }
        let i = r.outside(n);
        let x = val(r, w);
        check_panics(true, &format!("{log} ({n} elements): get({i})"), || v.get(i))?;
        check_panics(true, &format!("{log} ({n} elements): set({i}, {x:#x})"), || v.set(i, x))?;
        if w < 64 {
            let x = too_large(r, w);
            check_panics(true, &format!("{log}: push({x:#x})"), || v.push(x))?;
        }
        same(&v, &m, &format!("{log}: after rejected operations"))?;
        let x = val(r, w);
        check_panics(false, &format!("{log}: push({x:#x})"), || v.push(x))?;
        m.push(x);
        log.push_str(&format!(", push({x:#x})"));
    }
    same(&v, &m, &log)
}
fn c09_create(k: u64, r: &mut Rng) -> Case {
    let w = match k % 3 {
        0 => r.below(130),
        1 => 1 + r.below(64),
        _ => r.value(),
    };
    let bad = w == 0 || w > 64;
    check_panics(bad, &format!("IntVec::new({w})"), || IntVec::new(w))?;
    let c = if r.coin() { r.below(5000) } else { 1 << r.below(24) };
    if w <= 64 || w.checked_mul(c).is_some() {
        check_panics(bad, &format!("IntVec::with_capacity({w}, {c})"), || IntVec::with_capacity(w, c))?;
    }
    if !bad {
        let (mut v, log) = (IntVec::with_capacity(w, c), format!("IntVec::with_capacity({w}, {c})"));
        check!(v.is_empty(), "{log}: not empty");
        check_panics(true, &format!("{log}: get(0)"), || v.get(0))?;
        check_panics(true, &format!("{log}: set(0, 0)"), || v.set(0, 0))?;
        check_panics(false, &format!("{log}: push({:#x})", max(w)), || v.push(max(w)))?;
        check_eq!(v.get(0), max(w), "{log}: get(0) after push({:#x})", max(w));
    }
    Ok(())
}

fn walk<I: ExactSizeIterator<Item = usize>>(mut it: I, m: &[usize], log: &str) -> Case {
    for (i, &x) in m.iter().enumerate() {
        check_eq!(it.len(), m.len() - i, "{log}: len after {i} elements");
        check_eq!(it.size_hint(), (m.len() - i, Some(m.len() - i)), "{log}: size_hint after {i} elements");
        check_eq!(it.next(), Some(x), "{log}: element {i}");
    }
    for j in 0..4 {
        check_eq!(it.len(), 0, "{log}: len at the end, {j} calls of next after it");
        check_eq!(it.size_hint(), (0, Some(0)), "{log}: size_hint at the end, {j} calls of next after it");
        check_eq!(it.next(), None, "{log}: call {j} of next after the end");
    }
    Ok(())
}
fn build(m: &[usize], w: usize) -> IntVec {
    let mut v = IntVec::new(w);
    for &x in m {
        v.push(x);
    }
    v
}
fn c10_iter(k: u64, r: &mut Rng) -> Case {
    let w = 1 + k as usize % 64;
    let n = if k < 1000 { k as usize / 64 } else { r.below(400) };
    let m: Vec<usize> = (0..n).map(|_| val(r, w)).collect();
    let log = format!("width {w}, elements {m:x?}");
    let v = build(&m, w);
    check_eq!(v.is_empty(), m.is_empty(), "{log}: is_empty");
    walk(v.iter(), &m, &format!("{log}: iter"))?;
    walk((&v).into_iter(), &m, &format!("{log}: into_iter by reference"))?;
    let j = r.below(n + 3);
    let mut it = v.iter();
    check_eq!(it.nth(j), m.get(j).copied(), "{log}: nth({j})");
    walk(it, m.get(j + 1..).unwrap_or(&[]), &format!("{log}: after nth({j})"))?;
    check_eq!(v.iter().collect::<Vec<_>>(), m, "{log}: collect");
    check_eq!(v.iter().count(), n, "{log}: count");
    check_eq!(v.iter().last(), m.last().copied(), "{log}: last");
    check_eq!(v.iter().skip(j).step_by(2).collect::<Vec<_>>(), m.iter().copied().skip(j).step_by(2).collect::<Vec<_>>(), "{log}: skip({j}).step_by(2)");
    check_eq!(v.iter().fold(0u128, |a, x| a + x as u128), m.iter().map(|&x| x as u128).sum::<u128>(), "{log}: fold");
    check_eq!(v.iter().max(), m.iter().copied().max(), "{log}: max");
    walk(v.into_iter(), &m, &format!("{log}: into_iter by value"))?;
    let mut it = build(&m, w).into_iter();
    check_eq!(it.nth(j), m.get(j).copied(), "{log}: by value, nth({j})");
    walk(it, m.get(j + 1..).unwrap_or(&[]), &format!("{log}: by value, after nth({j})"))?;
    check_eq!(build(&m, w).into_iter().collect::<Vec<_>>(), m, "{log}: by value, collect");
    check_eq!(build(&m, w).into_iter().count(), n, "{log}: by value, count");
    check_eq!(build(&m, w).into_iter().last(), m.last().copied(), "{log}: by value, last");
    Ok(())
}

fn c15_ints(k: u64, r: &mut Rng) -> Case {
    let w = 1 + k as usize % 64;
    let (mut v, mut log) = create(r, w);
    let mut m: Vec<usize> = vec![];
    check_eq!(v.raw_data().to_vec(), vec![0usize], "{log}: raw words");
    for _ in 0..r.range(1, 200) {
        if m.is_empty() || r.below(3) < 2 {
            let x = val(r, w);
            log.push_str(&format!(", push({x:#x})"));
            v.push(x);
            m.push(x);
        } else {
            let (i, x) = (r.index(m.len()), val(r, w));
            log.push_str(&format!(", set({i}, {x:#x})"));
            v.set(i, x);
            m[i] = x;
        }
        if m.len() < 20 || r.one_in(8) {
            check_eq!(v.raw_data().to_vec(), packed(&m, w), "{log}: raw words");
        }
    }
    check_eq!(v.raw_data().to_vec(), packed(&m, w), "{log}: raw words");
    Ok(())
}
fn c15_fill(k: u64, _: &mut Rng) -> Case {
    let w = 1 + k as usize % 64;
    for a in [max(w), 1, max(w) / 3] {
        let mut v = IntVec::new(w);
        let mut m = vec![];
        for i in 0..140 {
            v.push(a);
            m.push(a);
            check_eq!(v.raw_data().to_vec(), packed(&m, w), "width {w}, {} elements {a:#x}: raw words", i + 1);
        }
    }
    Ok(())
}

static SUBS: &[Sub] = &[
    ("C08", "history", c08_history),
    ("C08", "each-position", c08_each),
    ("C09", "reject", c09_reject),
    ("C09", "create", c09_create),
    ("C10", "iteration", c10_iter),
    ("C15", "int-raw-words", c15_ints),
    ("C15", "int-raw-words-each", c15_fill),
];
static HEAVY: &[Sub] = &[("C08", "large", c08_large)];
fn main() {
    main_with(SUBS, HEAVY)
}
