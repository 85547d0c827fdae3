//! Reference definitions of library functions whose real definitions are
//! written with raw pointers or specialisation.  The driver substitutes them
//! for the library functions named in its table, so that the analyses read
//! these loops instead.

#[cfg(not(feature = "std"))]
use alloc::vec::Vec;

pub fn model_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn model_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn model_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}

pub fn model_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}

pub fn model_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn model_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn model_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn model_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn model_vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

pub fn model_vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}

pub fn model_vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}

#[cfg(feature = "std")]
pub fn model_set_from_iter<T: Eq + core::hash::Hash, I: IntoIterator<Item = T>>(
    it: I,
) -> std::collections::HashSet<T> {
    let mut v = std::collections::HashSet::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.insert(x);
    }
    v
}

#[cfg(feature = "std")]
pub fn model_set_extend<T: Eq + core::hash::Hash, I: IntoIterator<Item = T>>(
    v: &mut std::collections::HashSet<T>,
    it: I,
) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.insert(x);
    }
}

#[cfg(feature = "std")]
pub fn model_set_extend_ref<'a, T: Eq + core::hash::Hash + Copy + 'a, I: IntoIterator<Item = &'a T>>(
    v: &mut std::collections::HashSet<T>,
    it: I,
) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.insert(*x);
    }
}

// The published algorithm of `slice::binary_search_by`: any algorithm that
// meets its documented contract gives the same answer on strictly increasing
// data, which is what the analyses require of the tables.
pub fn model_binary_search_by<T, F: FnMut(&T) -> core::cmp::Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
    let mut size = s.len();
    if size == 0 {
        return Err(0);
    }
    let mut base = 0usize;
    while size > 1 {
        let half = size / 2;
        let mid = base + half;
        let cmp = f(&s[mid]);
        base = if let core::cmp::Ordering::Greater = cmp { base } else { mid };
        size -= half;
    }
    let cmp = f(&s[base]);
    match cmp {
        core::cmp::Ordering::Equal => Ok(base),
        core::cmp::Ordering::Less => Err(base + 1),
        core::cmp::Ordering::Greater => Err(base),
    }
}

pub fn model_partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut pred: P) -> usize {
    let mut lo = 0usize;
    let mut hi = s.len();
    while lo < hi {
        let mid = lo + (hi - lo) / 2;
        if pred(&s[mid]) {
            lo = mid + 1;
        } else {
            hi = mid;
        }
    }
    lo
}

// Uses that make the driver emit an instance for each model whatever the
// library under analysis calls (a positive control for the substitution).
pub fn root_models_control(v: Vec<u32>) -> u32 {
    v.iter().copied().fold(0u32, |a, b| if a > b { a } else { b })
}
