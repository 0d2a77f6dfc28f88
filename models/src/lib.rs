//! Reference bodies for library control flow (iterator consumers and adaptors, panics, lazies).
//! The analysis runs the MIR of these functions in place of the library functions of the same
//! name, so that closures passed to them are analysed; the leaf iterators are modelled in
//! sa/models.py.
#![allow(dead_code, clippy::all)]

/// "the limit of a `take` / a bounded loop has been reached": either answer is possible
#[inline(never)]
pub fn limit_reached(n: usize) -> bool {
    n == 12345
}

// ---- consumers -----------------------------------------------------------
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        f(x)?;
    }
    Ok(())
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        let r = f(x);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if i == n {
            return Some(x);
        }
        i += 1;
    }
    None
}
pub fn vec_extend<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut m = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        m = core::cmp::min(m, x);
    }
    Some(m)
}
pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut m = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        m = core::cmp::max(m, x);
    }
    Some(m)
}
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        m = f(m, x);
    }
    Some(m)
}
pub fn try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    Some(acc)
}
pub fn try_fold_res<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    Ok(acc)
}

// ---- adaptors ------------------------------------------------------------
pub struct Map<I, F> {
    it: I,
    f: F,
}
pub fn map<I: Iterator, B, F: FnMut(I::Item) -> B>(it: I, f: F) -> Map<I, F> {
    Map { it, f }
}
impl<I: Iterator, B, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() {
            Some(x) => Some((self.f)(x)),
            None => None,
        }
    }
}
/// goes through what is collected lazily by reference
pub struct ByRef<I>(I);
impl<I: Iterator> Iterator for ByRef<I>
where
    I::Item: 'static,
{
    type Item = &'static I::Item;
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some(x) => Some(leaked(x)),
            None => None,
        }
    }
}
fn leaked<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
pub struct Filter<I, F> {
    it: I,
    f: F,
}
pub fn filter<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> Filter<I, F> {
    Filter { it, f }
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.it.next() {
            if (self.f)(&x) {
                return Some(x);
            }
        }
        None
    }
}
pub struct FilterMap<I, F> {
    it: I,
    f: F,
}
pub fn filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> FilterMap<I, F> {
    FilterMap { it, f }
}
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        while let Some(x) = self.it.next() {
            let r = (self.f)(x);
            if r.is_some() {
                return r;
            }
        }
        None
    }
}
pub struct FlatMap<I, F, J: IntoIterator> {
    it: I,
    f: F,
    cur: Option<J::IntoIter>,
}
pub fn flat_map<I: Iterator, J: IntoIterator, F: FnMut(I::Item) -> J>(it: I, f: F) -> FlatMap<I, F, J> {
    FlatMap { it, f, cur: None }
}
impl<I: Iterator, J: IntoIterator, F: FnMut(I::Item) -> J> Iterator for FlatMap<I, F, J> {
    type Item = J::Item;
    fn next(&mut self) -> Option<J::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                if let Some(x) = c.next() {
                    return Some(x);
                }
                self.cur = None;
            }
            match self.it.next() {
                Some(x) => self.cur = Some((self.f)(x).into_iter()),
                None => return None,
            }
        }
    }
}
pub struct Flatten<I: Iterator>
where
    I::Item: IntoIterator,
{
    it: I,
    cur: Option<<I::Item as IntoIterator>::IntoIter>,
}
pub fn flatten<I: Iterator>(it: I) -> Flatten<I>
where
    I::Item: IntoIterator,
{
    Flatten { it, cur: None }
}
impl<I: Iterator> Iterator for Flatten<I>
where
    I::Item: IntoIterator,
{
    type Item = <I::Item as IntoIterator>::Item;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                if let Some(x) = c.next() {
                    return Some(x);
                }
                self.cur = None;
            }
            match self.it.next() {
                Some(x) => self.cur = Some(x.into_iter()),
                None => return None,
            }
        }
    }
}
pub struct MapWhile<I, F> {
    it: I,
    f: F,
}
pub fn map_while<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> MapWhile<I, F> {
    MapWhile { it, f }
}
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() {
            Some(x) => (self.f)(x),
            None => None,
        }
    }
}
pub struct Skip<I> {
    it: I,
    n: usize,
}
pub fn skip<I: Iterator>(it: I, n: usize) -> Skip<I> {
    Skip { it, n }
}
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.n > 0 {
            self.n -= 1;
            if self.it.next().is_none() {
                return None;
            }
        }
        self.it.next()
    }
}
pub struct TakeWhile<I, F> {
    it: I,
    f: F,
    done: bool,
}
pub fn take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> TakeWhile<I, F> {
    TakeWhile { it, f, done: false }
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done {
            return None;
        }
        match self.it.next() {
            Some(x) => {
                if (self.f)(&x) {
                    Some(x)
                } else {
                    self.done = true;
                    None
                }
            }
            None => None,
        }
    }
}
pub struct SkipWhile<I, F> {
    it: I,
    f: F,
    done: bool,
}
pub fn skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> SkipWhile<I, F> {
    SkipWhile { it, f, done: false }
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.it.next() {
            if self.done || !(self.f)(&x) {
                self.done = true;
                return Some(x);
            }
        }
        None
    }
}
pub struct Take<I> {
    it: I,
    n: usize,
}
pub fn take<I: Iterator>(it: I, n: usize) -> Take<I> {
    Take { it, n }
}
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if limit_reached(self.n) {
            return None;
        }
        self.it.next()
    }
}
pub struct Chain<I, J> {
    a: Option<I>,
    b: J,
}
pub fn chain<I: Iterator, J: IntoIterator<Item = I::Item>>(a: I, b: J) -> Chain<I, J::IntoIter> {
    Chain { a: Some(a), b: b.into_iter() }
}
impl<I: Iterator, J: Iterator<Item = I::Item>> Iterator for Chain<I, J> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if let Some(a) = &mut self.a {
            if let Some(x) = a.next() {
                return Some(x);
            }
            self.a = None;
        }
        self.b.next()
    }
}
pub struct Enumerate<I> {
    it: I,
    n: usize,
}
pub fn enumerate<I: Iterator>(it: I) -> Enumerate<I> {
    Enumerate { it, n: 0 }
}
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() {
            Some(x) => {
                let i = self.n;
                self.n += 1;
                Some((i, x))
            }
            None => None,
        }
    }
}
pub struct Zip<I, J> {
    a: I,
    b: J,
}
pub fn zip<I: Iterator, J: IntoIterator>(a: I, b: J) -> Zip<I, J::IntoIter> {
    Zip { a, b: b.into_iter() }
}
impl<I: Iterator, J: Iterator> Iterator for Zip<I, J> {
    type Item = (I::Item, J::Item);
    fn next(&mut self) -> Option<(I::Item, J::Item)> {
        match self.a.next() {
            Some(x) => match self.b.next() {
                Some(y) => Some((x, y)),
                None => None,
            },
            None => None,
        }
    }
}
pub struct Inspect<I, F> {
    it: I,
    f: F,
}
pub fn inspect<I: Iterator, F: FnMut(&I::Item)>(it: I, f: F) -> Inspect<I, F> {
    Inspect { it, f }
}
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.it.next() {
            Some(x) => {
                (self.f)(&x);
                Some(x)
            }
            None => None,
        }
    }
}
pub struct Peekable<I: Iterator> {
    it: I,
    peeked: Option<Option<I::Item>>,
}
pub fn peekable<I: Iterator>(it: I) -> Peekable<I> {
    Peekable { it, peeked: None }
}
pub fn peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if p.peeked.is_none() {
        p.peeked = Some(p.it.next());
    }
    match &p.peeked {
        Some(Some(x)) => Some(x),
        _ => None,
    }
}
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.peeked.take() {
            Some(x) => x,
            None => self.it.next(),
        }
    }
}
pub struct FromFn<F> {
    f: F,
}
pub fn from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> {
    FromFn { f }
}
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        (self.f)()
    }
}

// ---- options of poll_fn-like futures --------------------------------------
pub struct PollFn<F> {
    f: F,
}
pub fn poll_fn<T, F: FnMut(&mut core::task::Context<'_>) -> core::task::Poll<T>>(f: F) -> PollFn<F> {
    PollFn { f }
}
impl<F> Unpin for PollFn<F> {}
impl<T, F: FnMut(&mut core::task::Context<'_>) -> core::task::Poll<T>> core::future::Future for PollFn<F> {
    type Output = T;
    fn poll(self: core::pin::Pin<&mut Self>, cx: &mut core::task::Context<'_>) -> core::task::Poll<T> {
        (self.get_mut().f)(cx)
    }
}

// ---- Duration / ordering helpers -------------------------------------------
pub fn min<T: Ord>(a: T, b: T) -> T {
    if b < a {
        b
    } else {
        a
    }
}
pub fn max<T: Ord>(a: T, b: T) -> T {
    if b < a {
        a
    } else {
        b
    }
}

// ---- thread-locals ---------------------------------------------------------
/// whether the value of this thread has been destroyed already
#[inline(never)]
pub fn tls_gone<T>(key: &'static std::thread::LocalKey<T>) -> bool {
    key as *const _ as usize == 12345
}
#[inline(never)]
pub fn tls_error() -> std::thread::AccessError {
    loop {}
}
pub fn try_with<T, R, F: FnOnce(&T) -> R>(key: &'static std::thread::LocalKey<T>, f: F) -> Result<R, std::thread::AccessError> {
    if tls_gone(key) {
        return Err(tls_error());
    }
    Ok(key.with(f))
}

// ---- arrays ------------------------------------------------------------------
pub fn array_map1<T, U, F: FnMut(T) -> U>(a: [T; 1], mut f: F) -> [U; 1] {
    let [x] = a;
    [f(x)]
}
pub fn array_map2<T, U, F: FnMut(T) -> U>(a: [T; 2], mut f: F) -> [U; 2] {
    let [x, y] = a;
    let x = f(x);
    let y = f(y);
    [x, y]
}
pub fn array_map3<T, U, F: FnMut(T) -> U>(a: [T; 3], mut f: F) -> [U; 3] {
    let [x, y, z] = a;
    let x = f(x);
    let y = f(y);
    let z = f(z);
    [x, y, z]
}
pub fn array_from_fn2<U, F: FnMut(usize) -> U>(mut f: F) -> [U; 2] {
    let x = f(0);
    let y = f(1);
    [x, y]
}
