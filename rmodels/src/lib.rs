//! Loop bodies standing for the iterator consumers of the standard library. Never executed:
//! their MIR is analysed in place of the library's.
#![allow(unused)]

pub enum Step<T> {
    Done,
    Skip,
    Item(T),
}

// interpreted by the analysis
pub fn filter_step<I, T>(_it: &mut I) -> Step<T> {
    loop {}
}
pub fn raw_add<T>(_a: T, _b: T) -> T {
    loop {}
}

pub fn raw_sub<T>(_a: T, _b: T) -> T {
    loop {}
}

pub fn search<I, T>(it: &mut I) -> Option<T> {
    loop {
        match filter_step::<I, T>(it) {
            Step::Done => return None,
            Step::Skip => {}
            Step::Item(x) => return Some(x),
        }
    }
}

pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(
    it: &mut I,
    mut f: F,
) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) {
            Ok(()) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}

pub fn try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(
    it: &mut I,
    init: B,
    mut f: F,
) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Ok(a) => acc = a,
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}

pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(_) = it.next() {
        n = raw_add(n, 1);
    }
    n
}

pub fn sum<I: Iterator<Item = u64>>(mut it: I) -> u64 {
    let mut n = 0u64;
    while let Some(x) = it.next() {
        n = raw_add(n, x);
    }
    n
}

pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0usize;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n = raw_add(n, 1);
    }
    None
}

// `it` is already reversed, `n` its length
pub fn rposition<I: Iterator, F: FnMut(I::Item) -> bool>(
    mut it: I,
    n: usize,
    mut f: F,
) -> Option<usize> {
    let mut n = n;
    while let Some(x) = it.next() {
        n = raw_sub(n, 1);
        if f(x) {
            return Some(n);
        }
    }
    None
}

pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(
    it: &mut I,
    mut f: F,
) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}

pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}

pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if i == n {
            return Some(x);
        }
        i = raw_add(i, 1);
    }
    None
}

pub fn collect<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

pub fn extend<I: Iterator>(v: &mut Vec<I::Item>, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x);
    }
}

pub fn collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}

pub fn collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}

pub fn unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
    let mut l = Vec::new();
    let mut r = Vec::new();
    while let Some((a, b)) = it.next() {
        l.push(a);
        r.push(b);
    }
    (l, r)
}

pub fn partition<I: Iterator, F: FnMut(&I::Item) -> bool>(
    mut it: I,
    mut f: F,
) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut l = Vec::new();
    let mut r = Vec::new();
    while let Some(x) = it.next() {
        if f(&x) {
            l.push(x);
        } else {
            r.push(x);
        }
    }
    (l, r)
}

pub fn max<I: Iterator<Item = u64>>(mut it: I) -> Option<u64> {
    let mut m = None;
    while let Some(x) = it.next() {
        m = match m {
            Some(y) if x < y => Some(y),
            _ => Some(x),
        };
    }
    m
}

pub fn min<I: Iterator<Item = u64>>(mut it: I) -> Option<u64> {
    let mut m = None;
    while let Some(x) = it.next() {
        m = match m {
            Some(y) if y <= x => Some(y),
            _ => Some(x),
        };
    }
    m
}

pub fn skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(
    it: &mut I,
    mut f: F,
) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if !f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut it = s.iter();
    while let Some(y) = it.next() {
        if y == x {
            return true;
        }
    }
    false
}

pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut it = core::mem::take(v).into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            v.push(x);
        }
    }
}
