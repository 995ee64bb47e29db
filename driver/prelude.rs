
#[doc(hidden)]
#[allow(warnings)]
pub mod __vprelude {
    // Library functions that take closures, written out. Calls in the crate to the named library function are
    // analysed with these bodies. Not part of the crate: added to the compiler's view of src/lib.rs only.
    use core::cmp::Ordering;
    pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() { if !f(x) { return false; } }
        true
    }
    pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() { if f(x) { return true; } }
        false
    }
    pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
        let mut i = 0;
        while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
        None
    }
    pub fn rposition<I: ExactSizeIterator + DoubleEndedIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
        let mut i = it.len();
        while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } }
        None
    }
    pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
        match o { Some(x) => f(x), None => d }
    }
    pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
        match o { Some(x) => f(x), None => d() }
    }
    pub fn option_unwrap_or_else<T, D: FnOnce() -> T>(o: Option<T>, d: D) -> T {
        match o { Some(x) => x, None => d() }
    }
    pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o { Some(x) => f(x), None => false }
    }
    pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o { Some(x) => f(x), None => true }
    }
    pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
    pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
    pub fn result_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
    pub fn result_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
    pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
        match o { Ok(x) => f(x), Err(_) => d }
    }
    pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
        match o { Ok(x) => x, Err(e) => f(e) }
    }
    pub fn ord_is_lt(o: Ordering) -> bool { match o { Ordering::Less => true, _ => false } }
    pub fn ord_is_le(o: Ordering) -> bool { match o { Ordering::Greater => false, _ => true } }
    pub fn ord_is_gt(o: Ordering) -> bool { match o { Ordering::Greater => true, _ => false } }
    pub fn ord_is_ge(o: Ordering) -> bool { match o { Ordering::Less => false, _ => true } }
    pub fn ord_is_eq(o: Ordering) -> bool { match o { Ordering::Equal => true, _ => false } }
    pub fn ord_is_ne(o: Ordering) -> bool { match o { Ordering::Equal => false, _ => true } }
}
