// Contracts of what the extracted functions call: the collections, iterators
// and texts of std. Every `external_body` function here is an assumption.

// ------------------------------------------------------------------ iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Iter<T> { v: std::vec::Vec<T> }
impl<T> View for Iter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub trait VIter<T> {
    spec fn content(&self) -> Seq<T>;
    fn v_iter(&self) -> (r: Iter<T>) ensures r@ == self.content(), r@.len() <= usize::MAX;
}
impl<T> VIter<T> for [T] {
    open spec fn content(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: Iter<T>) { unimplemented!() }
}
impl<T> VIter<T> for Vec<T> {
    open spec fn content(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: Iter<T>) { unimplemented!() }
}
impl<T, const N: usize> VIter<T> for [T; N] {
    open spec fn content(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: Iter<T>) { unimplemented!() }
}
/// what a `take_while` took
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Taken<T> { v: std::vec::Vec<T> }
impl<T> View for Taken<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }

pub trait VCollect<T>: Sized {
    spec fn holds(&self, s: Seq<T>) -> bool;
}
pub trait VIntoIter<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: Iter<T>) ensures r@ == self.items();
}
impl<T> VIntoIter<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: Iter<T>) { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Iter<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VCollect<T>>(self) -> (r: C) ensures r.holds(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
    // the elements that are taken are taken at once (they are, by the `extend` around it)
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Taken<T>)
        requires forall|x: T| #[trigger] f.requires((&x,)),
        ensures
            r@.len() <= old(self)@.len(),
            r@ == old(self)@.take(r@.len() as int),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((&#[trigger] old(self)@[i],), true),
            r@.len() == old(self)@.len() ==> final(self)@.len() == 0,
            r@.len() < old(self)@.len() ==> f.ensures((&old(self)@[r@.len() as int],), false) && final(self)@ == old(self)@.skip(r@.len() as int + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
          old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    /// the first place whose element satisfies the predicate
    #[verifier::external_body]
    pub fn position<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|x: T| #[trigger] f.requires((&x,)),
        ensures
            r is Some ==> r->0 < old(self)@.len() && f.ensures((&old(self)@[r->0 as int],), true)
                && forall|i: int| 0 <= i < r->0 ==> f.ensures((&#[trigger] old(self)@[i],), false),
            r is None ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((&#[trigger] old(self)@[i],), false),
    { unimplemented!() }
}
pub trait VExtend<T> {
    spec fn before(&self) -> Seq<T>;
    fn v_extend(&mut self, t: Taken<T>) ensures final(self).before() == old(self).before() + t@;
}
impl<T> VExtend<T> for Vec<T> {
    open spec fn before(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_extend(&mut self, t: Taken<T>) { unimplemented!() }
}

// ---------------------------------------------------------------- collections
/// maps and sets: their keys and values as mathematical ones
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K: View, V: View> View for HashMap<K, V> { type V = Map<K::V, V::V>; uninterp spec fn view(&self) -> Map<K::V, V::V>; }
impl<K: View, V: View> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k@), r is Some ==> r->0@ == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { m: std::collections::HashSet<T> }
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_disjoint(&self, o: &HashSet<T>) -> (r: bool) ensures r == self@.disjoint(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
}
impl<T> VCollect<T> for HashSet<T> { open spec fn holds(&self, s: Seq<T>) -> bool { self@ == s.to_set() } }
impl<T> VCollect<T> for Vec<T> { open spec fn holds(&self, s: Seq<T>) -> bool { self@ == s } }

// ---------------------------------------------------------------------- texts
/// what can be made a text
pub trait VInto: Sized {
    spec fn text(&self) -> Seq<u8>;
    fn v_into(self) -> (r: Vec<u8>) ensures r@ == self.text();
}
impl VInto for &[u8] {
    open spec fn text(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Vec<u8>) { self.to_vec() }
}
impl VInto for Vec<u8> {
    open spec fn text(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Vec<u8>) { self }
}
impl<const N: usize> VInto for &[u8; N] {
    open spec fn text(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Vec<u8>) { self.to_vec() }
}
pub trait VBytes {
    spec fn octets(&self) -> Seq<u8>;
    fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.octets();
}
impl VBytes for [u8] {
    open spec fn octets(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
impl<const N: usize> VBytes for [u8; N] {
    open spec fn octets(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
/// the decimal text of a number
pub open spec fn dec(n: int) -> Seq<u8>
    decreases (if n < 0 { -n + 1 } else { n })
{
    if n < 0 { seq![45u8] + dec(-n) }
    else if n < 10 { seq![(48 + n) as u8] }
    else { dec(n / 10).push((48 + n % 10) as u8) }
}
/// what has a text (Display)
pub trait VShow {
    spec fn shown(&self) -> Seq<u8>;
    fn v_to_string(&self) -> (r: String) ensures r@ == self.shown();
}
impl VShow for u64 {
    open spec fn shown(&self) -> Seq<u8> { dec(*self as int) }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VShow for u32 {
    open spec fn shown(&self) -> Seq<u8> { dec(*self as int) }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VShow for u16 {
    open spec fn shown(&self) -> Seq<u8> { dec(*self as int) }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VShow for i32 {
    open spec fn shown(&self) -> Seq<u8> { dec(*self as int) }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<T: VShow> VShow for &T {
    open spec fn shown(&self) -> Seq<u8> { (**self).shown() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
/// String, CString, OsStr: some bytes; `chars` is the text a literal is compared with
#[verifier::external_body]
pub struct String { s: std::string::String }
impl View for String { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn chars(t: Seq<u8>) -> Seq<char>;
/// the bytes of a literal
pub uninterp spec fn utf8(t: Seq<char>) -> Seq<u8>;
impl String {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: String) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, t: &[u8]) -> (r: String) ensures r@ == self@ + t@ { unimplemented!() }
}
impl VInto for String {
    open spec fn text(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { chars(self@) == o@ }
}
impl PartialEq<str> for String {
    #[verifier::external_body]
    fn eq(&self, o: &str) -> (r: bool) { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a str> for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a str) -> bool { chars(self@) == o@ }
}
impl<'a> PartialEq<&'a str> for String {
    #[verifier::external_body]
    fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub struct CString { s: std::ffi::CString }
impl View for CString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl CString {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct OsStr { s: std::ffi::OsString }
impl View for OsStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl OsStr {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// lists of texts
#[verifier::external_body]
pub struct Texts { v: std::vec::Vec<std::vec::Vec<u8>> }
impl View for Texts { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
pub open spec fn joined(t: Seq<Seq<u8>>, by: u8) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { seq![] } else if t.len() == 1 { t[0] } else { joined(t.drop_last(), by).push(by) + t.last() }
}
impl Texts {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: Vec<u8>) ensures final(self)@ == old(self)@.push(t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, by: &u8) -> (r: Vec<u8>) ensures r@ == joined(self@, *by) { unimplemented!() }
}
/// paths: their text; which paths are equal, what joining makes and what a
/// file name is, std says
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
impl View for PathBuf { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn same_path(a: Seq<u8>, b: Seq<u8>) -> bool;
pub uninterp spec fn path_join(a: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn path_name(a: Seq<u8>) -> Option<Seq<u8>>;
impl vstd::std_specs::cmp::PartialEqSpecImpl for PathBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PathBuf) -> bool { same_path(self@, o@) }
}
impl PartialEq for PathBuf {
    #[verifier::external_body]
    fn eq(&self, o: &PathBuf) -> (r: bool) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some == path_name(self@) is Some, r is Some ==> r->0@ == path_name(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn join<T: VInto>(&self, t: T) -> (r: PathBuf) ensures r@ == path_join(self@, t.text()) { unimplemented!() }
}

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, F: std::ops::FnOnce(E) -> T + std::marker::Destruct> [std::result::Result::<T, E>::unwrap_or_else] (r: Result<T, E>, f: F) -> (o: T)
    requires r is Err ==> f.requires((r->Err_0,))
    ensures r is Ok ==> o == r->Ok_0, r is Err ==> f.ensures((r->Err_0,), o)
;
#[verifier::external_body]
pub fn drop<T>(t: T) { }

pub type uid_t = u32;
pub type gid_t = u32;
pub type pid_t = i32;
pub type mode_t = u32;
pub type RawFd = i32;
pub trait VAppend<T> {
    spec fn so_far(&self) -> Seq<T>;
    fn v_extend_from_slice(&mut self, t: &[T]) ensures final(self).so_far() == old(self).so_far() + t@;
}
impl VAppend<u8> for Vec<u8> {
    open spec fn so_far(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_extend_from_slice(&mut self, t: &[u8]) { unimplemented!() }
}
