//! Rank and select: C11-C14.
use replay::*;
use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

#[cfg(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
type Third = succinct_neo::rank_select::flat_popcount::SimdSearch;
#[cfg(not(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1")))]
type Third = LinearSearch;

/// A length and the ascending positions of the ones, with a description.
fn vector(k: u64, r: &mut Rng) -> (usize, Vec<usize>, String) {
    let n = match k % 8 {
        0 => k as usize / 8 % 1100,
        1 => (512 * r.range(0, 30) + r.below(5)).saturating_sub(2),
        2 => (4096 * r.range(0, 14) + r.below(5)).saturating_sub(2),
        3 => (64 * r.range(0, 200) + r.below(3)).saturating_sub(1),
        4 => (8192 * r.range(0, 9) + r.below(5)).saturating_sub(2),
        5 => r.below(140_000),
        _ => r.below(30_000),
    };
    let (ones, d): (Vec<usize>, String) = match r.below(11) {
        0 => ((0..n).collect(), "all ones".into()),
        1 => (vec![], "no ones".into()),
        2 => {
            let p = r.range(2, 200);
            let o = r.below(p);
            ((0..n).filter(|i| i % p == o).collect(), format!("ones at i % {p} == {o}"))
        }
        3 => {
            // few ones
            let c = r.range(1, 8);
            let mut v: Vec<usize> = (0..c).map(|_| r.below(n.max(1))).filter(|&i| i < n).collect();
            v.sort();
            v.dedup();
            let d = format!("ones at {v:?}");
            (v, d)
        }
        4 => {
            // dense blocks, empty blocks
            let b = [64, 512, 4096, 8192][r.below(4)];
            let s = r.next();
            ((0..n).filter(|i| s >> (i / b % 64) & 1 == 1).collect(), format!("blocks of {b} bits full where {s:#x} has a one"))
        }
        5 => {
            let a = r.below(n + 1);
            ((a..n).collect(), format!("ones from {a} on"))
        }
        6 => {
            let a = r.below(n + 1);
            ((0..a).collect(), format!("ones before {a}"))
        }
        7 => {
            let p = r.range(2, 5000);
            let o = r.below(p);
            ((0..n).filter(|i| i % p != o).collect(), format!("zeros at i % {p} == {o}"))
        }
        8 => {
            // a full block between sparse ones
            let b = 4096 * r.below(n / 4096 + 1);
            let p = r.range(300, 3000);
            ((0..n).filter(|i| i % p == 0 || (*i >= b && *i < b + 4096)).collect(), format!("ones at i % {p} == 0 and in {b}..{}", b + 4096))
        }
        _ => {
            let d = r.range(1, 32);
            let s = r.next();
            let mut q = Rng(s);
            ((0..n).filter(|_| q.below(32) < d).collect(), format!("random with density {d}/32, seed {s:#x}"))
        }
    };
    (n, ones, format!("{n} bits, {d}"))
}
fn bv(n: usize, ones: &[usize]) -> BitVec {
    let mut v = BitVec::new(n);
    for &i in ones {
        v.set(i, true);
    }
    v
}
fn rank_ref(ones: &[usize], i: usize) -> usize {
    ones.partition_point(|&p| p < i)
}
fn indices(n: usize, r: &mut Rng) -> Vec<usize> {
    if n < 700 {
        return (0..=n).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, n, n - 1, n / 2];
    for b in [64, 512, 4096] {
        for _ in 0..12 {
            let x = b * r.below(n / b + 1);
            v.extend([x, x + 1, x.saturating_sub(1)]);
        }
    }
    for _ in 0..40 {
        v.push(r.below(n + 1));
    }
    v.retain(|&i| i <= n);
    v
}

fn c11_with<T>(v: &BitVec, n: usize, ones: &[usize], d: &str, r: &mut Rng) -> Case {
    let f = FlatPopcount::<T>::new(v);
    check_eq!(f.len(), n, "{d}: len");
    check_eq!(f.is_empty(), n == 0, "{d}: is_empty");
    for i in indices(n, r) {
        let e = rank_ref(ones, i);
        check_eq!(f.rank::<true>(i), e, "{d}: rank::<true>({i})");
        check_eq!(f.rank::<false>(i), i - e, "{d}: rank::<false>({i})");
        check_eq!(f.rank_dyn(i, true), e, "{d}: rank_dyn({i}, true)");
        check_eq!(f.rank_dyn(i, false), i - e, "{d}: rank_dyn({i}, false)");
    }
    for _ in 0..3 {
        let i = r.outside(n + 1);
        check_panics(true, &format!("{d}: rank::<true>({i})"), || f.rank::<true>(i))?;
        check_panics(true, &format!("{d}: rank::<false>({i})"), || f.rank::<false>(i))?;
        check_panics(true, &format!("{d}: rank_dyn({i}, true)"), || f.rank_dyn(i, true))?;
        check_panics(true, &format!("{d}: rank_dyn({i}, false)"), || f.rank_dyn(i, false))?;
    }
    Ok(())
}
fn c11_rank(k: u64, r: &mut Rng) -> Case {
    let (n, ones, d) = vector(k, r);
    let v = bv(n, &ones);
    if r.coin() {
        c11_with::<()>(&v, n, &ones, &d, r)
    } else {
        c11_with::<LinearSearch>(&v, n, &ones, &d, r)
    }
}
fn c12_with<S: SelectStrategy>(v: &BitVec, ones: &[usize], d: &str, name: &str, r: &mut Rng) -> Case {
    let f = FlatPopcount::<S>::new(v);
    let c = ones.len();
    let mut ks: Vec<usize> = if c < 300 { (0..c).collect() } else { (0..80).map(|_| r.below(c)).collect() };
    for b in [512usize, 4096, 8192] {
        for _ in 0..5 {
            let x = b * r.below(c / b + 1);
            ks.extend([x, x + 1, x.saturating_sub(1)]);
        }
    }
    ks.extend([0, c, c + 1, c.saturating_sub(1), c + r.below(5), usize::MAX, r.outside(c)]);
    for k in ks {
        check_eq!(f.select(k), ones.get(k).copied(), "{d}: select({k}) with {name} strategy");
    }
    Ok(())
}
fn c12_select(k: u64, r: &mut Rng) -> Case {
    let (n, ones, d) = vector(k, r);
    let v = bv(n, &ones);
    c12_with::<LinearSearch>(&v, &ones, &d, "linear", r)?;
    c12_with::<BinarySearch>(&v, &ones, &d, "binary", r)?;
    c12_with::<Third>(&v, &ones, &d, "SIMD", r)
}
fn c12_dense(k: u64, r: &mut Rng) -> Case {
    // many ones, so that several samples exist
    let n = 8192 * r.range(1, 12) + r.below(4096 * 2);
    let lead = if k % 2 == 0 { 0 } else { r.below(60_000) };
    let gap = r.below(40_000);
    let at = r.below(n);
    let ones: Vec<usize> = (0..n).map(|i| i + lead + if i >= at { gap } else { 0 }).collect();
    let len = lead + n + gap + r.below(9000);
    let d = format!("{len} bits, ones in {lead}..{} and {}..{}", lead + at, lead + at + gap, lead + gap + n);
    let v = bv(len, &ones);
    c12_with::<LinearSearch>(&v, &ones, &d, "linear", r)?;
    c12_with::<BinarySearch>(&v, &ones, &d, "binary", r)
}
fn c13_with<S: SelectStrategy>(k: u64, r: &mut Rng) -> Case {
    let (n, ones, d) = vector(k, r);
    let v = bv(n, &ones);
    let f = FlatPopcount::<S>::new(&v);
    let mut prev: Option<(usize, usize)> = None;
    let mut is = indices(n, r);
    is.sort();
    for i in is {
        let (o, z) = (f.rank::<true>(i), f.rank::<false>(i));
        check_eq!(o + z, i, "{d}: rank of ones plus rank of zeros at {i}");
        if let Some((pi, po)) = prev {
            check!(po <= o && o - po <= i - pi, "{d}: rank is {po} at {pi} and {o} at {i}");
        }
        prev = Some((i, o));
        if i < n {
            let o2 = f.rank::<true>(i + 1);
            check!(o <= o2 && o2 <= o + 1, "{d}: rank is {o} at {i} and {o2} at {}", i + 1);
            if v.get(i) {
                check_eq!(f.select(o), Some(i), "{d}: select(rank({i}) = {o})");
            }
        }
    }
    for _ in 0..40 {
        let k = r.below(ones.len() + 2);
        if let Some(p) = f.select(k) {
            check!(p < n && v.get(p), "{d}: select({k}) = {p} is not the position of a one");
            check_eq!(f.rank::<true>(p), k, "{d}: rank(select({k}) = {p})");
        } else {
            check!(k >= ones.len(), "{d}: select({k}) = None with {} ones", ones.len());
        }
    }
    Ok(())
}
fn c13_inverse(k: u64, r: &mut Rng) -> Case {
    match r.below(3) {
        0 => c13_with::<LinearSearch>(k, r),
        1 => c13_with::<BinarySearch>(k, r),
        _ => c13_with::<Third>(k, r),
    }
}

fn strat_ref(c: &[usize; 7], rank: usize) -> (usize, usize) {
    let k = c.iter().filter(|&&x| x <= rank).count();
    (k, if k == 0 { 0 } else { c[k - 1] })
}
fn c14_strategies(k: u64, r: &mut Rng) -> Case {
    let mut c = [0usize; 7];
    for (i, x) in c.iter_mut().enumerate() {
        *x = match k % 6 {
            0 => 4095 * (k as usize >> 3 >> i & 1),
            1 => r.below(4),
            2 => 512 * i + r.below(3),
            3 => 4095 - r.below(3),
            4 => 1 << r.below(12),
            _ => r.below(4096),
        };
    }
    c.sort();
    let l1 = match r.below(4) {
        0 => 0,
        1 => (1u128 << 44) - 1,
        2 => 1u128 << r.below(44),
        _ => r.next() as u128 & ((1 << 44) - 1),
    };
    let mut e = l1 << 84;
    for i in 0..7 {
        e |= (c[i] as u128) << (72 - 12 * i);
    }
    let ranks: Vec<usize> = if r.one_in(50) {
        (0..4096).collect()
    } else {
        c.iter().flat_map(|&x| [x, x + 1, x.wrapping_sub(1)]).chain([0, 4095, r.below(4096)]).filter(|&x| x < 4096).collect()
    };
    for rank in ranks {
        let x = strat_ref(&c, rank);
        check_eq!(LinearSearch::find_l2(e, rank), x, "linear find_l2({e:#034x}, {rank}), counts {c:?}");
        check_eq!(BinarySearch::find_l2(e, rank), x, "binary find_l2({e:#034x}, {rank}), counts {c:?}");
        check_eq!(Third::find_l2(e, rank), x, "SIMD find_l2({e:#034x}, {rank}), counts {c:?}");
    }
    Ok(())
}

fn large(p: u8) -> Case {
    let n = (1usize << 33) + 4321;
    let mut v = BitVec::new(n);
    // dense stretches around the powers of two
    let mut ones: Vec<usize> = vec![];
    for c in [0usize, 1 << 16, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 3 << 31, 1 << 33] {
        ones.extend(c.saturating_sub(9000)..(c + 9000).min(n));
    }
    ones.sort();
    ones.dedup();
    for &i in &ones {
        v.set(i, true);
    }
    let d = format!("{n} bits with dense stretches around powers of two");
    let mut r = Rng(7);
    if p == 11 {
        let f = FlatPopcount::<()>::new(&v);
        check_eq!(f.len(), n, "{d}: len");
        for t in 0..60_000 {
            let i = if t % 2 == 0 { (ones[r.below(ones.len())] + r.below(3)).min(n) } else { r.below(n + 1) };
            check_eq!(f.rank::<true>(i), rank_ref(&ones, i), "{d}: rank::<true>({i})");
            check_eq!(f.rank_dyn(i, false), i - rank_ref(&ones, i), "{d}: rank_dyn({i}, false)");
        }
        Ok(())
    } else {
        c12_with::<LinearSearch>(&v, &ones, &d, "linear", &mut r)?;
        let f = FlatPopcount::<BinarySearch>::new(&v);
        for (k, &i) in ones.iter().enumerate().step_by(37) {
            check_eq!(f.select(k), Some(i), "{d}: select({k})");
            check_eq!(f.rank::<true>(i), k, "{d}: rank({i})");
        }
        Ok(())
    }
}
fn c11_large(_: u64, _: &mut Rng) -> Case {
    large(11)
}
fn c12_large(_: u64, _: &mut Rng) -> Case {
    large(12)
}
/// more than 2^32 ones
fn c11_full(_: u64, _: &mut Rng) -> Case {
    full(11)
}
fn c12_full(_: u64, _: &mut Rng) -> Case {
    full(12)
}
fn full(p: u8) -> Case {
    let n = (1usize << 32) + (1 << 20) + 77;
    let mut v = BitVec::new(n);
    for i in 0..n {
        unsafe { v.set_unchecked(i, true) };
    }
    for i in [5, 1 << 31, n - 2] {
        v.set(i, false);
    }
    let z = [5usize, 1 << 31, n - 2];
    let d = format!("{n} bits, all ones but {z:?}");
    let mut r = Rng(9);
    let f = FlatPopcount::<BinarySearch>::new(&v);
    for t in 0..60_000 {
        let i = if t < 1000 { n - t } else { r.below(n + 1) };
        let e = i - z.iter().filter(|&&q| q < i).count();
        if p == 11 {
            check_eq!(f.rank::<true>(i), e, "{d}: rank::<true>({i})");
            check_eq!(f.rank::<false>(i), i - e, "{d}: rank::<false>({i})");
        } else if i < n && !z.contains(&i) {
            check_eq!(f.select(e), Some(i), "{d}: select({e})");
        }
    }
    if p == 12 {
        check_eq!(f.select(n - 3), None, "{d}: select({})", n - 3);
        check_eq!(f.select(n - 4), Some(n - 1), "{d}: select({})", n - 4);
    }
    Ok(())
}

static SUBS: &[Sub] = &[
    ("C11", "rank", c11_rank),
    ("C12", "select", c12_select),
    ("C12", "dense", c12_dense),
    ("C13", "inverse", c13_inverse),
    ("C14", "strategies", c14_strategies),
];
static HEAVY: &[Sub] = &[
    ("C11", "large", c11_large),
    ("C11", "full", c11_full),
    ("C12", "large", c12_large),
    ("C12", "full", c12_full),
    ("C13", "large", c12_large),
];
fn main() {
    main_with(SUBS, HEAVY)
}
