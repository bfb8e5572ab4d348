//! Every function here exercises library functions the interpreter models; main prints what they really return.
use itertools::Itertools;
use rayon::prelude::*;
use std::collections::*;
type V = Vec<i64>;
fn b(x: bool) -> i64 { x as i64 }
fn o<T: Into<i64>>(x: Option<T>) -> i64 { x.map(|v| v.into()).unwrap_or(-99) }
fn u(x: Option<usize>) -> i64 { x.map(|v| v as i64).unwrap_or(-99) }
fn sv(s: &str) -> V { s.bytes().map(|x| x as i64).collect() }
fn sl<'a>(l: impl Iterator<Item = &'a str>) -> V { let mut r = vec![]; for x in l { r.extend(sv(x)); r.push(-1); } r }
fn data() -> V { vec![5, 3, 3, 9, -2, 7, 7, 7, 0, 4, 5] }

pub fn vec_dedup_by_key() -> V { let mut v = data(); v.dedup_by_key(|x| *x / 4); v }
pub fn vec_dedup_by() -> V { let mut v = data(); v.dedup_by(|x, y| *x >= *y); v }
pub fn vec_dedup_by_mut() -> V { let mut v = data(); v.dedup_by(|x, y| { if *x == *y { *y += 100; true } else { false } }); v }
pub fn vec_retain_mut() -> V { let mut v = data(); v.retain_mut(|x| { *x += 1; *x % 2 == 0 }); v }
pub fn vec_splice() -> V { let mut v = data(); let r: V = v.splice(2..5, vec![100, 200]).collect(); v.push(-1); v.extend(r); v }
pub fn vec_resize_with() -> V { let mut v = data(); let mut k = 0; v.resize_with(14, || { k += 3; k }); v.resize_with(13, || 0); v }
pub fn vec_efw() -> V { let mut v = data(); v.extend_from_within(2..=4); v.extend_from_within(..1); v }
pub fn vec_dequeue() -> V {
    let mut d: VecDeque<i64> = data().into(); d.rotate_left(3); d.push_front(8); d.resize(14, 6); d.insert(2, 77);
    let r = d.remove(5).unwrap(); d.swap(0, 1); let mut e = VecDeque::from(vec![1, 2]); d.append(&mut e);
    let mut v: V = d.iter().copied().collect(); v.push(r); v.push(b(d.contains(&77))); v.push(e.len() as i64); v.extend(d.range(1..3)); v.push(*d.front().unwrap()); v.push(*d.back().unwrap());
    d.rotate_right(2); v.extend(d.drain(1..4)); d.retain(|x| x % 2 == 1); v.extend(d); v
}
pub fn sl_fill_with() -> V { let mut v = data(); let mut k = 1; v[2..6].fill_with(|| { k *= 2; k }); v }
pub fn sl_chunk_by() -> V { let v = data(); let mut r = vec![]; for c in v.chunk_by(|a, b| a <= b) { r.push(c.len() as i64); r.extend(c); } r }
pub fn sl_rchunks() -> V { let v = data(); let mut r = vec![]; for c in v.rchunks_exact(3) { r.extend(c); r.push(-1); } for c in v.rchunks(4) { r.extend(c); r.push(-1); } r }
pub fn sl_rchunks_mut() -> V { let mut v = data(); for (i, c) in v.rchunks_mut(4).enumerate() { c[0] += 10 * i as i64; } v }
pub fn sl_search() -> V {
    let v = vec![1i64, 4, 9, 16, 25]; let f = |r: Result<usize, usize>| match r { Ok(i) => i as i64, Err(i) => -1 - i as i64 };
    vec![f(v.binary_search(&9)), f(v.binary_search(&10)), f(v.binary_search(&100)), f(v.binary_search_by(|x| x.cmp(&4))), f(v.binary_search_by_key(&8, |x| x * 2)), v.partition_point(|x| *x < 10) as i64]
}
pub fn sl_split_mut() -> V { let mut v = data(); { let (a, r) = v.split_first_mut().unwrap(); *a += 1; r[0] += 50; } { let (a, r) = v.split_last_mut().unwrap(); *a += 2; r[3] = 1; } v }
pub fn sl_swap_slices() -> V { let mut v = data(); let mut w = vec![1, 2, 3]; v[1..4].swap_with_slice(&mut w); v.extend(w); v }
pub fn sl_misc() -> V {
    let v = data(); let mut r = vec![b(v.is_sorted()), b([1, 2, 2].is_sorted()), b([3, 2, 1].is_sorted_by_key(|x| -x))]; r.extend([1, 2].repeat(3));
    if let Some(s) = v.strip_prefix(&[5i64, 3][..]) { r.extend(s); } r.push(b(v.strip_suffix(&[5i64, 3][..]).is_none()));
    for p in v.split(|x| *x == 7) { r.push(-1); r.extend(p); } for p in v.split_inclusive(|x| *x == 3) { r.push(-5); r.extend(p); } r
}
pub fn sl_first_last_mut() -> V { let mut v = data(); *v.first_mut().unwrap() = 1; *v.last_mut().unwrap() = 2; v[3..=5].reverse(); v }
pub fn it_map_while() -> V { data().into_iter().map_while(|x| if x > 0 { Some(x * 2) } else { None }).collect() }
pub fn it_minmax_by() -> V {
    let w = vec![(1i64, 1i64), (3, 2), (3, 3), (1, 4)];
    let f = |x: Option<&(i64, i64)>| x.unwrap().1;
    vec![f(w.iter().max_by(|a, b| a.0.cmp(&b.0))), f(w.iter().min_by(|a, b| a.0.cmp(&b.0))), f(w.iter().max_by(|a, b| b.0.cmp(&a.0))), f(w.iter().max_by_key(|a| a.0)), f(w.iter().min_by_key(|a| a.0))]
}
pub fn it_cmp() -> V {
    let (x, y) = (vec![1i64, 2, 3], vec![1i64, 2, 4]);
    vec![b(x.iter().lt(y.iter())), b(x.iter().ge(&y)), b(x.iter().ne(y.iter())), x.iter().cmp(y.iter()) as i64, x.iter().take(2).cmp(y.iter()) as i64, b(x.iter().partial_cmp(y.iter()) == Some(std::cmp::Ordering::Less))]
}
pub fn it_back() -> V { let v = data(); let mut i = v.iter(); let x = *i.nth_back(2).unwrap(); let y = *v.iter().rfind(|x| **x < 4).unwrap(); vec![x, y, i.len() as i64, *i.next_back().unwrap()] }
pub fn it_peek() -> V {
    let mut p = data().into_iter().peekable(); let mut r = vec![];
    while let Some(x) = p.next_if(|x| *x > 0) { r.push(x); } r.push(o(p.next_if_eq(&-2))); if let Some(x) = p.peek_mut() { *x = 55; } r.extend(p); r
}
pub fn it_from_fn() -> V { let mut k = 0; let mut v: V = std::iter::from_fn(|| { k += 1; if k < 5 { Some(k * k) } else { None } }).collect(); v.extend(std::iter::once_with(|| 3)); v.extend(std::iter::repeat_with(|| 4).take(2)); v }
pub fn it_sorted() -> V {
    let mut r: V = data().into_iter().sorted().collect(); r.extend(data().into_iter().sorted_by(|a, b| b.cmp(a))); r.extend(data().into_iter().sorted_by_key(|x| x % 3)); r
}
pub fn it_unique() -> V { let mut r: V = data().into_iter().unique().collect(); r.push(-1); r.extend(data().into_iter().dedup()); r.push(-1); r.extend(data().into_iter().unique_by(|x| x % 3)); r }
pub fn it_tuples() -> V {
    let mut r = vec![]; for (a, b) in data().into_iter().tuples() { r.push(a * 100 + b); } for (a, b, c) in data().into_iter().tuple_windows() { r.push(a + b * c); }
    for (a, b) in (1..3i64).cartesian_product(vec![5i64, 6, 7]) { r.push(a * 10 + b); } r.extend((0..3i64).interleave(10..15i64)); r
}
pub fn it_tools() -> V {
    let mut r = vec![b([2, 2, 2].iter().all_equal()), b([2, 2, 1].iter().all_equal()), b([2, 2, 1].iter().all_unique()), o(Some(5i64).into_iter().exactly_one().ok()), b((0..2).exactly_one().is_err())];
    r.push(u(data().iter().position_max())); r.push(u(data().iter().position_min()));
    r
}
pub fn par_misc() -> V {
    let mut v = data(); let mut r: V = v.par_iter().map_with(1i64, |s, x| x + *s).collect();
    r.extend(v.par_iter().map_init(|| 2i64, |s, x| x * *s).collect::<V>()); r.push(*v.par_iter().max_by_key(|x| **x).unwrap()); r.push(*v.par_iter().min_by(|a, b| a.cmp(b)).unwrap());
    v.par_sort_unstable(); r.extend(&v); v.par_sort_by(|a, b| b.cmp(a)); r.extend(&v); v.par_sort_by_key(|x| (x % 4, *x)); r.extend(&v);
    r.extend(v.par_iter().chunks(3).map(|c| c.into_iter().sum::<i64>()).collect::<V>()); r.push(u(v.par_iter().position_last(|x| *x == 7)));
    r.extend(vec![0i64, 1, 2].into_par_iter().interleave(vec![10i64, 11, 12].into_par_iter()).collect::<V>());
    r.extend(v.par_iter().cloned().update(|x| *x += 1).collect::<V>()); v.par_rchunks_mut(4).enumerate().for_each(|(i, c)| c[0] = i as i64); r.extend(v);
    r
}
pub fn par_unzip() -> V {
    let (mut a, b): (V, V) = data().par_iter().map(|x| (*x, x * 2)).unzip(); a.extend(b);
    let (x, y): (V, V) = data().into_par_iter().partition(|x| x % 2 == 0); a.extend(x); a.push(-1); a.extend(y);
    let (mut p, mut q) = (vec![1i64], vec![2i64]); data().into_par_iter().map(|x| (x + 1, x - 1)).unzip_into_vecs(&mut p, &mut q); a.extend(p); a.extend(q); a
}
pub fn opts() -> V {
    let (s, n): (Option<i64>, Option<i64>) = (Some(3), None); let (k, e): (Result<i64, i64>, Result<i64, i64>) = (Ok(4), Err(5));
    let mut g = n; *g.get_or_insert(9) += 1; let mut t = s; let tk = t.take_if(|x| *x == 3); let mut seen = 0; let _ = s.inspect(|x| seen = *x);
    vec![b(s.is_none_or(|x| x > 5)), b(n.is_none_or(|x| x > 5)), b(e.is_err_and(|x| x == 5)), b(k.is_err_and(|_| true)), o(s.and(Some(8i64))), o(n.and(Some(8i64))), o(g), o(t), o(tk), seen,
         o(s.xor(n)), o(n.xor(s)), o(s.xor(s)), o(Some(s).flatten()), k.and(Ok::<i64, i64>(6)).unwrap(), o(Some(k).transpose().unwrap()), b(Some(e).transpose().is_err()), o(Ok::<Option<i64>, i64>(s).transpose().unwrap().ok()),
         k.iter().sum::<i64>() , e.iter().count() as i64, o(Some((1i64, 2i64)).unzip().1)]
}
pub fn ords() -> V {
    use std::cmp::Ordering::*;
    vec![Less.then(Greater) as i64, Equal.then(Greater) as i64, Equal.then_with(|| Less) as i64, 5i64.clamp(1, 3), (-5i64).clamp(1, 3), 2i64.clamp(1, 3), *std::cmp::max_by_key(&3i64, &-4, |x| x.abs()), std::cmp::min_by(3i64, 4, |a, b| b.cmp(a))]
}
pub fn btree() -> V {
    let mut m: BTreeMap<i64, i64> = data().into_iter().zip(10..).collect(); let mut r = vec![];
    for (k, v) in m.range(0..5) { r.extend([*k, *v]); } for (k, v) in m.range(5..) { r.extend([*k, *v]); } for (_, v) in m.range_mut(..=3) { *v += 1000; }
    let (k, v) = m.remove_entry(&3).unwrap(); r.extend([k, v]); let (k, v) = m.pop_first().unwrap(); r.extend([k, v]); let (k, v) = m.pop_last().unwrap(); r.extend([k, v]);
    let mut n = BTreeMap::from([(4i64, 1i64), (44, 2)]); m.append(&mut n); let h = m.split_off(&5); r.extend(h.into_values()); r.extend(m.get_key_value(&4).map(|(a, b)| a * b)); r.extend(m.into_iter().flat_map(|(a, b)| [a, b])); r.push(n.len() as i64); r
}
pub fn sets() -> V {
    let a: BTreeSet<i64> = data().into_iter().collect(); let c: BTreeSet<i64> = [9, 1, 4].into(); let mut r = vec![];
    for x in &a { r.push(*x); } r.push(-1); r.extend(a.union(&c)); r.push(-1); r.extend(a.intersection(&c)); r.push(-1); r.extend(a.difference(&c)); r.push(-1); r.extend(a.symmetric_difference(&c));
    let mut d = a.clone(); r.extend([b(d.remove(&9)), b(d.remove(&9)), *d.first().unwrap(), *d.last().unwrap(), d.pop_first().unwrap(), b(d.is_subset(&a)), b(d.is_empty())]); d.retain(|x| x % 2 == 1); r.extend(d.range(4..)); r.extend(d);
    let mut h: HashSet<i64> = HashSet::new(); h.insert(3); h.insert(3); h.extend([4, 5]); r.push(h.len() as i64); r.push(b(h.contains(&5))); h.retain(|x| *x > 3); let mut l: V = h.drain().collect(); l.sort(); r.extend(l); r.push(h.len() as i64);
    let mut s: HashSet<i64> = HashSet::default(); for x in data() { if !s.insert(x) { r.push(x); } } let mut l: V = s.into_iter().collect(); l.sort(); r.extend(l); r
}
pub fn hmaps() -> V {
    let mut m: HashMap<i64, i64> = data().into_iter().zip(10..).collect(); let (k, v) = m.remove_entry(&3).unwrap(); let mut r = vec![k, v]; let mut l: V = m.drain().map(|(a, b)| a + b).collect(); l.sort(); r.extend(l); r.push(m.len() as i64);
    m.insert(1, 2); m.insert(3, 4); let mut l: V = m.clone().into_values().collect(); l.sort(); r.extend(l); let mut l: V = m.into_keys().collect(); l.sort(); r.extend(l);
    let c = data().into_iter().counts(); r.push(c[&7] as i64); let g = data().into_iter().map(|x| (x % 2, x)).into_group_map(); r.extend(&g[&1]); r
}
pub fn strs() -> V {
    let s = "ab,cd;ef,,gh"; let mut r = vec![u(s.rfind(',')), u(s.rfind("ef")), u(s.find(|c: char| c == ';')), u(s.find("zz"))];
    r.extend(sl(s.matches(','))); for (i, x) in s.match_indices(",") { r.push(i as i64); r.extend(sv(x)); } r.extend(sl(s.splitn(3, ','))); r.extend(sl(s.rsplitn(3, ','))); r.extend(sl(s.rsplit(','))); r.extend(sl(s.split(|c: char| !c.is_alphanumeric())));
    r.extend(sl(s.split_inclusive(','))); r.extend(sl("a,b,".split_terminator(','))); r.extend(sl("a,b,".split(','))); let (a, c) = s.rsplit_once(',').unwrap(); r.extend(sv(a)); r.extend(sv(c)); let (a, c) = s.split_once(';').unwrap(); r.extend(sv(a)); r.extend(sv(c));
    r.push(b("AbC".eq_ignore_ascii_case("aBc"))); r.extend(sl(s.split(&[',', ';'][..]))); r.extend(sl("x".split("")));  r.extend(sl("0x12".strip_prefix("0x").into_iter())); r.push(b("abc".ends_with(char::is_alphabetic))); r
}
pub fn strings() -> V {
    let mut s = String::from("hello world"); let c = s.remove(1); s.retain(|c| c != 'l'); let d: String = s.drain(1..3).collect(); s.replace_range(0..1, "JJ"); let t = s.split_off(4); s.insert(1, 'z'); s.insert_str(0, "pre"); 
    let mut r = vec![c as i64]; r.extend(sv(&d)); r.extend(sv(&s)); r.extend(sv(&t)); s.truncate(2); r.extend(sv(s.as_str())); r.extend(s.into_bytes().iter().map(|x| *x as i64)); r.push(o(std::char::from_digit(11, 16).map(|c| c as u32))); r.push('Q'.to_ascii_lowercase() as i64); r.push(b('f'.is_ascii_hexdigit())); r.push(b(b'x'.is_ascii_digit())); r
}
pub fn ints() -> V {
    let mut r = vec![];
    for x in [0u64, 1, 2, 7, 8, 100, 255, 1 << 40] { 
        r.extend([x.leading_zeros() as i64, x.trailing_zeros() as i64, x.count_ones() as i64, x.count_zeros() as i64, x.leading_ones() as i64, x.trailing_ones() as i64, x.next_power_of_two() as i64, b(x.is_power_of_two()), x.isqrt() as i64, x.div_ceil(3) as i64, x.next_multiple_of(5) as i64, x.abs_diff(9) as i64]);
        if x > 0 { r.extend([x.ilog2() as i64, x.ilog10() as i64, x.ilog(3) as i64]); } r.push(o(x.checked_ilog2().map(|x| x as i64))); r.push((x.rotate_left(5) >> 3) as i64); r.push((x.swap_bytes() >> 1) as i64); r.push((x.reverse_bits() >> 1) as i64);
        r.push(o((x as u8).checked_add(100).map(|x| x as i64))); r.push((x as u8).saturating_mul(3) as i64); r.push((x as u8).saturating_sub(3) as i64); r.push((x as u8).wrapping_mul(77) as i64); let (a, c) = (x as u8).overflowing_add(200); r.extend([a as i64, b(c)]); r.push(o((x as u32).checked_pow(4).map(|x| x as i64)));
        r.push(u64::midpoint(x, 9) as i64);
    }
    for x in [-128i64, -7, -1, 0, 3, 127] { r.extend([x.rem_euclid(5), x.div_euclid(5), x % 5, x / 5, x.signum(), b(x.is_negative()), o((x as i8).checked_neg().map(|x| x as i64)), o((x as i8).checked_abs().map(|x| x as i64)), (x as i8).wrapping_neg() as i64, x.unsigned_abs() as i64, (x as i8).saturating_add(100) as i64, o((x as i8).checked_mul(2).map(|x| x as i64)), (x as i8).overflowing_neg().0 as i64]); }
    r.push((3u64).pow(5) as i64); r.push(7u32.wrapping_shl(35) as i64); r.push(o(7u32.checked_shl(35).map(|x| x as i64))); r
}
pub fn cells() -> V {
    use std::cell::*; let c = Cell::new(4i64); c.set(c.get() + 1); let t = c.replace(9); let k = c.take(); let q = RefCell::new(vec![1i64]); q.borrow_mut().push(5); let z = q.take(); let mut r = vec![t, k, c.into_inner()]; r.extend(z); r.extend(q.into_inner());
    let m = std::sync::Mutex::new(3i64); *m.lock().unwrap() += 4; r.push(m.into_inner().unwrap()); let mut x = 5i64; r.push(std::mem::replace(&mut x, 6)); r.push(std::mem::take(&mut x)); r.push(x); r
}
pub fn iters() -> V {
    let v = data(); let mut r: V = v.iter().rev().step_by(2).copied().collect(); r.extend(v.iter().skip(2).take(3).chain(&[70, 71])); r.extend(v.iter().scan(0, |s, x| { *s += x; if *s > 30 { None } else { Some(*s) } })); r.extend(v.windows(3).map(|w| w.iter().sum::<i64>())); r.extend(v.chunks(4).map(|w| w.iter().product::<i64>()));
    r.extend(v.iter().skip_while(|x| **x > 0)); r.extend(v.iter().take_while(|x| **x > 0)); r.extend(v.iter().filter_map(|x| if x % 3 == 0 { Some(x / 3) } else { None })); r.extend(v.iter().flat_map(|x| vec![*x; (*x).rem_euclid(3) as usize])); r.push(v.iter().rposition(|x| *x == 7).unwrap() as i64); r.push(*v.iter().min().unwrap()); r.push(*v.iter().max().unwrap());
    let (a, c): (V, V) = v.iter().partition(|x| **x > 4); r.extend(a); r.extend(c); r.push(v.iter().try_fold(0i8, |a, x| a.checked_add(*x as i8)).map(|x| x as i64).unwrap_or(-1)); r.push(v.iter().rfold(0, |a, x| a * 3 + x)); r.push(v.iter().copied().reduce(|a, x| a * 2 - x).unwrap()); r.extend(v.iter().cycle().skip(9).take(5)); r.push(b((1..5).contains(&4))); r.push(b((1..=5).contains(&5))); r.extend(std::iter::successors(Some(1i64), |x| if *x < 100 { Some(x * 3) } else { None })); r.extend([[1i64, 2], [3, 4]].concat()); r.extend([vec![1i64], vec![3, 4]].join(&0)); r.push(b(v.starts_with(&[5, 3]))); r.push(b(v.ends_with(&[5, 3]))); r
}
pub fn vecs() -> V {
    let mut v = data(); v.insert(3, 50); v.swap_remove(0); v.rotate_left(2); v[1..].rotate_right(3); v.copy_within(0..3, 5); v.swap(0, 4); let t = v.split_off(9); v.extend(t.iter().rev()); v.drain(1..=2); v.dedup(); v.truncate(9); v.resize(11, 1); v.sort_by_key(|x| std::cmp::Reverse(*x)); let mut s = v.clone(); s.sort_unstable(); s.retain(|x| *x != 7); v.append(&mut s); v.push(s.len() as i64); v[2..=3].copy_from_slice(&[21, 22]); v
}
pub fn vecs_a() -> V { let mut v = data(); v.insert(3, 50); v.swap_remove(0); v.rotate_left(2); v }
pub fn vecs_b() -> V { let mut v = data(); v[1..].rotate_right(3); v }
pub fn vecs_c() -> V { let mut v = data(); v.copy_within(0..3, 5); v.swap(0, 4); let t = v.split_off(9); v.extend(t.iter().rev()); v.drain(1..=2); v.dedup(); v }
pub fn vecs_d() -> V { let mut v = data(); v.truncate(9); v.resize(11, 1); v.sort_by_key(|x| std::cmp::Reverse(*x)); v }
pub fn vecs_e() -> V { let mut v = data(); let mut s = v.clone(); s.sort_unstable(); s.retain(|x| *x != 7); v.append(&mut s); v.push(s.len() as i64); v[2..=3].copy_from_slice(&[21, 22]); v }
#[derive(PartialEq, Eq, Clone, Copy)]
struct Odd(i64);
impl PartialOrd for Odd { fn partial_cmp(&self, o: &Odd) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Odd { fn cmp(&self, o: &Odd) -> std::cmp::Ordering { (self.0.rem_euclid(3), self.0).cmp(&(o.0.rem_euclid(3), o.0)) } }
pub fn ord_impl() -> V {
    let mut v: Vec<(Odd, i64)> = data().into_iter().zip(0..).map(|(x, i)| (Odd(x), i)).collect(); v.sort(); let mut r: V = v.iter().flat_map(|x| [x.0 .0, x.1]).collect();
    v.sort_by_key(|x| (std::cmp::Reverse(x.0), x.1)); r.extend(v.iter().map(|x| x.1)); r.push(v.iter().max().unwrap().1); r.push(b(Odd(4) < Odd(2))); r.push(b(Some(Odd(4)) < None)); r.push(Odd(4).max(Odd(3)).0);
    v.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1))); r.extend(v.iter().map(|x| x.1)); r
}
pub fn eqs() -> V { vec![b(Some(3) == Some(3)), b((1, "a") == (1, "b")), b(vec![1, 2] == [1, 2]), b([1, 2][..] < [1, 3][..]), b("abc" < "abd"), b(String::from("x") == "x"), b(Odd(2) != Odd(3)), b(Ok::<i64, ()>(1) == Ok(1)), b((1, 2) < (1, 3)), b(true > false)] }
pub fn fmts() -> V {
    let mut r = vec![]; let n = 4711i64; let s = "héy";
    for t in [format!("{n}"), format!("{:>8}", n), format!("{:<8}|", n), format!("{:^8}|", n), format!("{:08}", n), format!("{:x}", n), format!("{:#x}", n), format!("{:08X}", n), format!("{:#b}", 5), format!("{:o}", 9), format!("{:?}", s), format!("{:?}", vec![1, 2]), format!("{:?}", (1, "a")), format!("{:?}", Some(3)), format!("{:+}", n), format!("{:*^9}", s), format!("{:width$}", 3, width = 5), format!("{0}-{1}-{0}", 1, 2), format!("{{}}{}", 'c'), format!("{}", true), format!("{}", -5i8), format!("{:?}", "a\"b\n"), format!("{:?}", 'x'), format!("{:.3}", "abcdef")] { r.extend(sv(&t)); r.push(-1); }
    r
}
pub fn arrays() -> V {
    let a: [i64; 4] = std::array::from_fn(|i| i as i64 * 3); let c = a.map(|x| x + 1); let mut r: V = a.iter().zip(c.iter()).map(|(x, y)| x * y).collect(); let [p, q, ..] = c; r.extend([p, q]); let d: [i64; 2] = c[1..3].try_into().unwrap(); r.extend(d); r.push(b(<[i64; 3]>::try_from(&c[..2]).is_err())); for (i, x) in c.into_iter().enumerate().rev() { r.push(i as i64 * x); }
    let m = [[1i64, 2], [3, 4]]; r.extend(m.iter().flatten()); r.extend(m.concat()); r.push(m.iter().map(|x| x.iter().sum::<i64>()).product()); let mut z = [0i64; 5]; z[1..4].clone_from_slice(&[7, 8, 9]); z.swap(0, 2); r.extend(z); if let [x, .., y] = z { r.push(x - y); } if let Some((x, rest)) = z.split_first() { r.push(*x); r.extend(rest); } r
}
pub fn loops() -> V {
    let mut r = vec![]; let mut q: VecDeque<(i64, i64)> = VecDeque::from(vec![(1, 0)]); while let Some((x, d)) = q.pop_front() { r.push(x * 10 + d); if d < 3 { q.push_back((x * 2, d + 1)); if x % 2 == 1 { q.push_back((x + 3, d + 1)); } } }
    'o: for i in 0..5i64 { for j in 0..5i64 { if j > i { continue 'o; } if i * j > 8 { break 'o; } r.push(i * j); } } let x = loop { if let Some(y) = r.pop() { if y % 5 == 0 { break y; } } }; r.push(x); for i in (0..10).rev().step_by(3) { r.push(i); } for (i, c) in "héy".char_indices() { r.push(i as i64 + c as i64); } let mut it = (0..6i64).into_iter(); it.next(); for x in it.by_ref().take(2) { r.push(x); } r.extend(it); r
}
pub fn closures() -> V {
    fn ap<F: Fn(i64) -> i64>(f: F, x: i64) -> i64 { f(f(x)) } fn mk(k: i64) -> Box<dyn Fn(i64) -> i64> { Box::new(move |x| x * k + 1) } let mut c = 0; let mut inc = |d: i64| { c += d; c }; let mut r = vec![inc(2), inc(3)]; r.push(ap(|x| x + 5, 1)); r.push(ap(mk(3), 2)); let fs: Vec<fn(i64) -> i64> = vec![i64::abs, i64::signum]; r.extend(fs.iter().map(|f| f(-7))); let l: Vec<Box<dyn Fn(i64) -> i64>> = (1..4).map(mk).collect(); r.extend(l.iter().map(|f| f(10))); r.push(["5", "x", "7"].iter().filter_map(|s| s.parse::<i64>().ok()).sum()); r.extend(["5", "7"].iter().map(|s| s.parse::<i64>()).collect::<Result<Vec<_>, _>>().unwrap()); r
}
pub fn traits() -> V {
    trait Sh { fn area(&self) -> i64; fn twice(&self) -> i64 { self.area() * 2 } } struct Sq(i64); struct Re { w: i64, h: i64 } impl Sh for Sq { fn area(&self) -> i64 { self.0 * self.0 } } impl Sh for Re { fn area(&self) -> i64 { self.w * self.h } fn twice(&self) -> i64 { 1 } }
    let l: Vec<Box<dyn Sh>> = vec![Box::new(Sq(3)), Box::new(Re { w: 2, h: 5 })]; let mut r: V = l.iter().map(|s| s.area()).collect(); r.extend(l.iter().map(|s| s.twice())); fn g(s: &dyn Sh) -> i64 { s.area() + 1 } r.push(g(&Sq(2))); fn h(s: &impl Sh) -> i64 { s.twice() + 1 } r.push(h(&Re { w: 1, h: 1 })); r
}
