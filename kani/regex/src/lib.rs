//! Stand-in for `regex`. What a pattern matches is the real crate's business: natively (feature
//! `rec`) this is the real crate, and the patterns compiled are recorded; for the verifier, the
//! table made natively from the patterns the derive emitted says which of them match the paths of
//! the class under consideration, and which part of the path each of their groups captures.
#[cfg(feature = "rec")]
mod imp {
    pub use real::{Captures, Error, Match, SetMatches};
    pub static PATTERNS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
    fn rec(s: &str) { let mut p = PATTERNS.lock().unwrap(); if !p.iter().any(|x| x == s) { p.push(s.to_string()); } }
    #[derive(Debug, Clone)]
    pub struct Regex(real::Regex);
    impl Regex { pub fn new(s: &str) -> Result<Regex, Error> { rec(s); real::Regex::new(s).map(Regex) } }
    impl std::ops::Deref for Regex { type Target = real::Regex; fn deref(&self) -> &real::Regex { &self.0 } }
    #[derive(Debug, Clone)]
    pub struct RegexSet(real::RegexSet);
    impl RegexSet {
        pub fn new<I, S>(i: I) -> Result<RegexSet, Error> where I: IntoIterator<Item = S>, S: AsRef<str> {
            let v: Vec<String> = i.into_iter().map(|s| s.as_ref().to_string()).collect();
            for s in &v { rec(s); }
            real::RegexSet::new(&v).map(RegexSet)
        }
    }
    impl std::ops::Deref for RegexSet { type Target = real::RegexSet; fn deref(&self) -> &real::RegexSet { &self.0 } }
}
#[cfg(not(feature = "rec"))]
mod imp {
    use super::*;
    fn same(a: &Print, b: &Print) -> bool {
        a.0 == b.0 && a.1[0] == b.1[0] && a.1[1] == b.1[1] && a.1[2] == b.1[2] && a.1[3] == b.1[3] && a.1[4] == b.1[4] && a.1[5] == b.1[5]
    }
    /// (`pattern`, whether it matches, and the placeholder captured by group 1, 2, ...;
    /// `WHOLE` for group 0)
    #[derive(Clone, Copy)]
    pub struct Row { pub pat: Print, pub hit: bool, pub groups: [Option<usize>; 4] }
    pub const NO: Row = Row { pat: (usize::MAX, [0; 6]), hit: false, groups: [None; 4] };
    pub const ROWS: usize = 8;
    pub static mut TABLE: [Row; ROWS] = [NO; ROWS];
    /// Where in the path the placeholders are (and, last, something that is none).
    pub static mut SPAN: [(usize, usize); 4] = [(0, 0); 4];
    fn find(p: &Print) -> usize {
        // (no loops in here: they would need a larger unwinding bound for everything else, too)
        macro_rules! row { ($($i:expr)*) => { $(if same(unsafe { &TABLE[$i].pat }, p) { return $i; })* } }
        row!(0 1 2 3 4 5 6 7);
        panic!("stand-in: pattern not in the table");
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("regex") } }
    impl std::error::Error for Error {}
    #[derive(Debug, Clone, Copy)]
    pub struct Regex(usize);
    impl Regex {
        pub fn new(s: &str) -> Result<Regex, Error> { Ok(Regex(find(&print(s)))) }
        pub fn is_match(&self, _: &str) -> bool { unsafe { TABLE[self.0].hit } }
        pub fn captures<'t>(&self, t: &'t str) -> Option<Captures<'t>> { if unsafe { TABLE[self.0].hit } { Some(Captures(t, self.0)) } else { None } }
    }
    #[derive(Debug)]
    pub struct Captures<'t>(&'t str, usize);
    impl<'t> Captures<'t> {
        pub fn get(&self, i: usize) -> Option<Match<'t>> {
            if i == 0 { return Some(Match(self.0)); }
            if i > 4 { return None; }
            match unsafe { TABLE[self.1].groups[i - 1] } {
                Some(k) => unsafe { let (a, n) = SPAN[k]; Some(Match(std::mem::transmute::<(*const u8, usize), &'t str>((self.0.as_ptr().wrapping_add(a), n)))) },
                None => None,
            }
        }
    }
    impl<'t> std::ops::Index<usize> for Captures<'t> {
        type Output = str;
        fn index(&self, i: usize) -> &str { match self.get(i) { Some(m) => m.0, None => panic!("no group at index") } }
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Match<'t>(&'t str);
    impl<'t> Match<'t> { pub fn as_str(&self) -> &'t str { self.0 } }
    #[derive(Debug)]
    pub struct RegexSet { n: usize, rows: [usize; ROWS] }
    impl RegexSet {
        pub fn new<I, S>(i: I) -> Result<RegexSet, Error> where I: IntoIterator<Item = S>, S: AsRef<str> {
            let mut s = RegexSet { n: 0, rows: [0; ROWS] };
            let mut i = i.into_iter();
            macro_rules! add { ($($k:expr)*) => { $(match i.next() { Some(p) => { s.rows[$k] = find(&print(p.as_ref())); s.n += 1; } None => return Ok(s) })* } }
            add!(0 1 2 3 4 5 6 7);
            panic!("stand-in: too many patterns")
        }
        pub fn matches(&self, _: &str) -> SetMatches {
            let mut m = SetMatches { n: 0, hits: [0; 2] };
            macro_rules! test { ($($i:expr)*) => { $(if $i < self.n && unsafe { TABLE[self.rows[$i]].hit } { m.hits[m.n] = $i; m.n += 1; })* } }
            test!(0 1 2 3 4 5 6 7);
            m
        }
        pub fn is_match(&self, t: &str) -> bool { self.matches(t).n > 0 }
        pub fn len(&self) -> usize { self.n }
    }
    #[derive(Debug, Clone, Copy)]
    pub struct SetMatches { n: usize, hits: [usize; 2] }
    impl SetMatches {
        pub fn iter(&self) -> Iter { Iter { m: *self, at: 0 } }
        pub fn matched_any(&self) -> bool { self.n > 0 }
        pub fn matched(&self, i: usize) -> bool { (self.n > 0 && self.hits[0] == i) || (self.n > 1 && self.hits[1] == i) }
    }
    impl IntoIterator for SetMatches { type Item = usize; type IntoIter = Iter; fn into_iter(self) -> Iter { self.iter() } }
    #[derive(Debug, Clone)]
    pub struct Iter { m: SetMatches, at: usize }
    impl Iterator for Iter { type Item = usize; fn count(self) -> usize { self.m.n - self.at } fn next(&mut self) -> Option<usize> { if self.at < self.m.n { self.at += 1; Some(self.m.hits[self.at - 1]) } else { None } } }
}
/// A pattern is identified by its length and six of its bytes (distinct within each table).
pub type Print = (usize, [u8; 6]);
pub fn print(s: &str) -> Print {
    let (b, n) = (s.as_bytes(), s.len());
    if n == 0 { return (0, [0; 6]); }
    (n, [b[n / 6], b[n / 3], b[n / 2], b[n * 2 / 3], b[n * 5 / 6], b[n - 1]])
}
pub use imp::*;
