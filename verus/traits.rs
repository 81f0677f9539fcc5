//@include head.rs
verus!{
//@include prelude.rs
//@include texts.rs

pub uninterp spec fn bool_of(s: Seq<u8>) -> Option<bool>;
impl FromStr for bool {
    type Err = ParseBoolError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == bool_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for bool {
    type Err = ParseBoolError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == bool_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for bool::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
pub uninterp spec fn i8_of(s: Seq<u8>) -> Option<i8>;
impl FromStr for i8 {
    type Err = ParseIntError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == i8_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for i8 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == i8_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for i8::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
pub uninterp spec fn u8_of(s: Seq<u8>) -> Option<u8>;
impl FromStr for u8 {
    type Err = ParseIntError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == u8_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for u8 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == u8_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for u8::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
pub uninterp spec fn i16_of(s: Seq<u8>) -> Option<i16>;
impl FromStr for i16 {
    type Err = ParseIntError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == i16_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for i16 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == i16_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for i16::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
pub uninterp spec fn u16_of(s: Seq<u8>) -> Option<u16>;
impl FromStr for u16 {
    type Err = ParseIntError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == u16_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for u16 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == u16_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for u16::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
pub uninterp spec fn i32_of(s: Seq<u8>) -> Option<i32>;
impl FromStr for i32 {
    type Err = ParseIntError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == i32_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for i32 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == i32_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for i32::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
impl FromStr for u32 {
    type Err = ParseIntError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == u32_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for u32 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == u32_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for u32::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
pub uninterp spec fn i64_of(s: Seq<u8>) -> Option<i64>;
impl FromStr for i64 {
    type Err = ParseIntError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == i64_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for i64 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == i64_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for i64::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
pub uninterp spec fn u64_of(s: Seq<u8>) -> Option<u64>;
impl FromStr for u64 {
    type Err = ParseIntError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == u64_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for u64 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == u64_of(s) }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for u64::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
/// any text is itself
impl FromStr for String {
    type Err = ParseError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v is Some && v->0@ == s }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromSudoOption for String {
    type Err = ParseError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v is Some && v->0@ == s }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for String::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@end
}
impl FromSudoOption for PathBuf {
    type Err = ParseError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v is Some && v->0@ == s }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for PathBuf::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@rename into to_path
//@end
}

// ----------------------------------------------------------------------- lists
//@value sudo_plugin/src/options/traits.rs trait FromSudoOptionList::SEPARATOR => pub fn numbers_and_paths() -> (r: char) ensures r == ',' { $ }
//@value sudo_plugin/src/options/settings.rs FromSudoOptionList for NetAddr::SEPARATOR => pub fn addresses() -> (r: char) ensures r == ' ' { $ }
/// the default
pub struct Lister<T> { pub t: T }
impl<T: FromSudoOptionList> Lister<T> {
//@fn sudo_plugin/src/options/traits.rs trait FromSudoOptionList::from_sudo_option_list
//@subst &str => &Str
//@subst Self::SEPARATOR => T::separator()
//@closure 0 b: char -> (r: bool) ensures r == (b == T::by() as char)
//@before s . split
    proof { T::ascii(); }
//@spec
    ensures
        result@.len() == pieces(s@, T::by()).len(),
        forall|i: int| 0 <= i < result@.len() ==> (#[trigger] result@[i])@ == pieces(s@, T::by())[i],
//@end
}
impl<T> FromSudoOption for Vec<T>
where
    T: FromSudoOption + FromSudoOptionList,
{
    type Err = ParseListError<T::Err>;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool {
        if v is Some { every(pieces(s, T::by()), v->0@) } else { bad::<T>(pieces(s, T::by())) }
    }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for Vec::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@subst map_err(ParseListError) => map_err(|e: T::Err| -> (r: ParseListError<T::Err>) { ParseListError(e) })
//@before for element in
    let ghost all = list@;
//@loop 0 elements
    invariant
        elements.seq() == all,
        all.len() == pieces(s@, T::by()).len(),
        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i])@ == pieces(s@, T::by())[i],
        items@.len() == elements.index@,
        forall|i: int| 0 <= i < items@.len() ==> #[trigger] T::means(pieces(s@, T::by())[i], Some(items@[i])),
//@end
}
impl<T> FromSudoOption for HashSet<T>
where
    T: FromSudoOption + FromSudoOptionList,
{
    type Err = ParseListError<T::Err>;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { if v is Some { set_of::<T>(s, v->0@) } else { bad::<T>(pieces(s, T::by())) } }
//@fn sudo_plugin/src/options/traits.rs FromSudoOption for HashSet::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@rename into_iter v_into_iter
//@closure 0 vec: Vec<T> -> (r: HashSet<T>) ensures r@ == vec@.to_set()
//@end
}

// ------------------------------------------------------------------- addresses
#[derive(Clone, Copy)]
pub struct IpAddr { pub a: u128 }
pub struct AddrParseError { pub e: u8 }
pub uninterp spec fn ip_of(s: Seq<u8>) -> Option<IpAddr>;
impl FromStr for IpAddr {
    type Err = AddrParseError;
    open spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool { v == ip_of(s) }
    #[verifier::external_body]
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
/// the part before the first slash and the part behind it
pub open spec fn address(s: Seq<u8>) -> Option<IpAddr> { ip_of(s.take(until(s, 47))) }
pub open spec fn mask(s: Seq<u8>) -> Option<IpAddr> { ip_of(if until(s, 47) < s.len() { s.skip(until(s, 47) + 1) } else { seq![] }) }
proof fn until_is(t: Seq<u8>, b: u8, n: int)
    requires 0 <= n <= t.len(), forall|i: int| 0 <= i < n ==> t[i] != b, n < t.len() ==> t[n] == b
    ensures until(t, b) == n
    decreases n
{
    if n > 0 { until_is(t.skip(1), b, n - 1); }
}
//@struct sudo_plugin/src/options/settings.rs NetAddr
impl FromSudoOption for NetAddr {
    type Err = AddrParseError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool {
        if v is Some { address(s) == Some(v->0.addr) && mask(s) == Some(v->0.mask) } else { address(s) is None || mask(s) is None }
    }
//@fn sudo_plugin/src/options/settings.rs FromSudoOption for NetAddr::from_sudo_option
//@subst &str => &Str
//@subst ::std::result::Result => Result
//@subst s[ .. mid ] => s.upto(mid)
//@rename iter v_iter
//@rename unwrap_or_default v_or_default
//@closure 0 b: &u8 -> bool
//@closure 1  -> (r: usize) ensures r == bytes@.len()
//@before let addr
    proof { until_is(s@, 47, mid as int); }
//@end
}
}
fn main(){}
