/// str: its bytes. Which bytes are a text and where one may be cut, std says;
/// a text may be cut beside an ASCII byte and at its ends.
#[verifier::external_body]
pub struct Str { s: std::string::String }
impl View for Str { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn is_utf8(t: Seq<u8>) -> bool;
pub struct Utf8Error { pub at: usize }
/// the texts between the separators
pub open spec fn until(t: Seq<u8>, b: u8) -> int
    decreases t.len()
{
    if t.len() == 0 || t[0] == b { 0 } else { 1 + until(t.skip(1), b) }
}
pub open spec fn pieces(t: Seq<u8>, b: u8) -> Seq<Seq<u8>>
    decreases t.len()
    via pieces_ends
{
    if until(t, b) < t.len() { seq![t.take(until(t, b))] + pieces(t.skip(until(t, b) + 1), b) } else { seq![t] }
}
#[via_fn]
proof fn pieces_ends(t: Seq<u8>, b: u8) { until_fits(t, b); }
proof fn until_fits(t: Seq<u8>, b: u8)
    ensures 0 <= until(t, b) <= t.len()
    decreases t.len()
{
    if t.len() > 0 && t[0] != b { until_fits(t.skip(1), b); }
}
/// where a text may be cut
pub open spec fn cuts(t: Seq<u8>, n: int) -> bool {
    0 <= n <= t.len() && (n == 0 || n == t.len() || t[n] < 128 || t[n - 1] < 128)
}
pub trait VDefault<'a> {
    spec fn or_empty(&self) -> Seq<u8>;
    fn v_or_default(self) -> (r: &'a Str) ensures r@ == self.or_empty();
}
impl<'a> VDefault<'a> for Option<&'a Str> {
    open spec fn or_empty(&self) -> Seq<u8> { if *self is Some { (*self)->0@ } else { seq![] } }
    #[verifier::external_body]
    fn v_or_default(self) -> (r: &'a Str) { unimplemented!() }
}
impl Str {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() < usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(b: &[u8]) -> (r: Result<&Str, Utf8Error>) ensures r is Ok == is_utf8(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<F: FromStr>(&self) -> (r: Result<F, F::Err>) ensures F::spelled(self@, ok(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn upto(&self, n: usize) -> (r: &Str) requires cuts(self@, n as int) ensures r@ == self@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, n: std::ops::RangeFrom<usize>) -> (r: Option<&'a Str>)
        ensures
            cuts(self@, n.start as int) ==> r is Some && r->0@ == self@.skip(n.start as int),
            n.start > self@.len() ==> r is None,
    { unimplemented!() }
    /// the pieces between the places where the predicate holds, which is equality with an ASCII character
    #[verifier::external_body]
    pub fn split<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: Iter<&'a Str>)
        requires forall|c: char| #[trigger] f.requires((c,))
        ensures forall|b: u8| b < 128 && (forall|c: char, v: bool| #[trigger] f.ensures((c,), v) ==> v == (c == b as char)) ==> {
            &&& r@.len() == #[trigger] pieces(self@, b).len()
            &&& forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(self@, b)[i]
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(t: &'static str) -> (r: &'static Str) ensures r@ == utf8(t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn ok<T, E>(r: Result<T, E>) -> Option<T> { if r is Ok { Some(r->Ok_0) } else { None } }
/// `means(s, v)`: the text s is read as v, or as nothing
pub trait FromSudoOption: Sized {
    type Err;
    spec fn means(s: Seq<u8>, v: Option<Self>) -> bool;
    fn from_sudo_option(s: &Str) -> (r: Result<Self, Self::Err>) ensures Self::means(s@, ok(r));
}
/// FromStr of std: what it reads a text as
pub trait FromStr: Sized {
    type Err;
    spec fn spelled(s: Seq<u8>, v: Option<Self>) -> bool;
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) ensures Self::spelled(s@, ok(r));
}
pub struct ParseBoolError { pub e: u8 }
pub struct ParseIntError { pub e: u8 }
pub struct ParseError { pub e: u8 }
pub struct ParseListError<T>(pub T);
pub uninterp spec fn u32_of(s: Seq<u8>) -> Option<u32>;
pub trait FromSudoOptionList: Sized {
    /// the byte between two items, an ASCII one
    spec fn by() -> u8;
    proof fn ascii() ensures Self::by() < 128;
    fn separator() -> (r: char) ensures r == Self::by() as char;
    fn from_sudo_option_list(s: &Str) -> (r: Vec<&Str>)
        ensures
            r@.len() == pieces(s@, Self::by()).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, Self::by())[i],
    ;
}
/// every piece is read
pub open spec fn every<T: FromSudoOption>(p: Seq<Seq<u8>>, l: Seq<T>) -> bool {
    p.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] T::means(p[i], Some(l[i]))
}
/// one piece is not
pub open spec fn bad<T: FromSudoOption>(p: Seq<Seq<u8>>) -> bool {
    exists|i: int| 0 <= i < p.len() && #[trigger] T::means(p[i], None)
}
/// the set of what the pieces are read as
pub open spec fn set_of<T: FromSudoOption + FromSudoOptionList>(s: Seq<u8>, v: Set<T>) -> bool {
    exists|l: Seq<T>| #[trigger] every(pieces(s, T::by()), l) && v == l.to_set()
}
pub struct OptionMap(pub HashMap<Vec<u8>, Vec<u8>>);
pub enum Error { OptionMissing { key: String }, OptionInvalid { key: String, value: String } }
/// the text that is the value of a name, if it is a text
pub open spec fn text_of(m: OptionMap, k: Seq<u8>) -> Option<Seq<u8>> {
    if m.0@.dom().contains(k) && is_utf8(m.0@[k]) { Some(m.0@[k]) } else { None }
}
