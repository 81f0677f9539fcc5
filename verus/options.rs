//@include head.rs
verus!{
//@include prelude.rs
//@include texts.rs

// ------------------------------------------------------------------- raw lists
/// a pointer into a list of texts that ends with a null pointer: what is left
/// of the list, or null. Nothing is known of what is behind the null pointer.
#[derive(Clone, Copy)]
pub struct RawList { pub left: Ghost<Option<Seq<Seq<u8>>>>, pub p: usize }
pub struct RawText { pub text: Ghost<Option<Seq<u8>>>, pub p: usize }
impl RawList {
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (self.left@ is None) { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self) -> (r: RawText)
        requires self.left@ is Some
        ensures r.text@ == if self.left@->0.len() == 0 { None } else { Some(self.left@->0[0]) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn offset(&self, n: isize) -> (r: RawList)
        requires n == 1, self.left@ is Some, self.left@->0.len() > 0
        ensures r.left@ == Some(self.left@->0.skip(1))
    { unimplemented!() }
}
impl RawText {
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (self.text@ is None) { unimplemented!() }
}
#[verifier::external_body]
pub struct CStr { s: std::ffi::CString }
impl View for CStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl CStr {
    #[verifier::external_body]
    pub fn from_ptr<'a>(p: RawText) -> (r: &'a CStr) requires p.text@ is Some ensures r@ == p.text@->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}

/// where the first '=' is, or the end
pub open spec fn sep(e: Seq<u8>) -> int
    decreases e.len()
{
    if e.len() == 0 { 0 } else if e[0] == 61 { 0 } else { 1 + sep(e.skip(1)) }
}
proof fn sep_is(e: Seq<u8>, n: int)
    requires 0 <= n <= e.len(), forall|i: int| 0 <= i < n ==> e[i] != 61, n < e.len() ==> e[n] == 61
    ensures sep(e) == n
    decreases n
{
    if n > 0 { sep_is(e.skip(1), n - 1); }
}
pub open spec fn name(e: Seq<u8>) -> Seq<u8> { if sep(e) < e.len() { e.take(sep(e)) } else { e } }
pub open spec fn value(e: Seq<u8>) -> Seq<u8> { if sep(e) < e.len() { e.skip(sep(e) + 1) } else { e } }
/// the entries of a list put into a map, in order
pub open spec fn entries(m: Map<Seq<u8>, Seq<u8>>, l: Seq<Seq<u8>>) -> Map<Seq<u8>, Seq<u8>>
    decreases l.len()
{
    if l.len() == 0 { m } else { entries(m.insert(name(l[0]), value(l[0])), l.skip(1)) }
}
/// the last entry with a name wins; exactly the names given are present
proof fn last_wins(m: Map<Seq<u8>, Seq<u8>>, l: Seq<Seq<u8>>, k: Seq<u8>)
    ensures
        entries(m, l).dom().contains(k) <==> m.dom().contains(k) || exists|i: int| 0 <= i < l.len() && name(#[trigger] l[i]) == k,
        forall|i: int| 0 <= i < l.len() && name(#[trigger] l[i]) == k && (forall|j: int| i < j < l.len() ==> name(#[trigger] l[j]) != k)
            ==> entries(m, l)[k] == value(l[i]),
        (forall|i: int| 0 <= i < l.len() ==> name(#[trigger] l[i]) != k) && m.dom().contains(k) ==> entries(m, l)[k] == m[k],
    decreases l.len()
{
    if l.len() > 0 {
        let n = m.insert(name(l[0]), value(l[0]));
        let t = l.skip(1);
        last_wins(n, t, k);
        assert forall|i: int| 0 <= i < l.len() && name(#[trigger] l[i]) == k implies entries(m, l).dom().contains(k) by {
            if i > 0 { assert(t[i - 1] == l[i]); }
        }
        if entries(m, l).dom().contains(k) && !m.dom().contains(k) && name(l[0]) != k {
            let i = choose|i: int| 0 <= i < t.len() && name(#[trigger] t[i]) == k;
            assert(l[i + 1] == t[i]);
        }
        assert forall|i: int| 0 <= i < l.len() && name(#[trigger] l[i]) == k && (forall|j: int| i < j < l.len() ==> name(#[trigger] l[j]) != k)
            implies entries(m, l)[k] == value(l[i]) by {
            assert forall|j: int| i - 1 < j < t.len() && j >= 0 implies name(#[trigger] t[j]) != k by { assert(t[j] == l[j + 1]); }
            if i > 0 { assert(t[i - 1] == l[i]); }
        }
        if (forall|i: int| 0 <= i < l.len() ==> name(#[trigger] l[i]) != k) && m.dom().contains(k) {
            assert forall|j: int| 0 <= j < t.len() implies name(#[trigger] t[j]) != k by { assert(t[j] == l[j + 1]); }
            assert(name(l[0]) != k);
        }
    }
}

//@const sudo_plugin/src/options/option_map.rs OPTIONS_SEPARATOR
impl OptionMap {
//@fn sudo_plugin/src/options/option_map.rs OptionMap::from_raw
//@pub
//@subst *const *const c_char => RawList
//@subst from_ptr(*ptr) => from_ptr(ptr.at())
//@subst (*ptr) => ptr.at()
//@rename to_owned v_to_vec
//@rename iter v_iter
//@closure 0 b: &u8 -> bool
//@spec
    ensures result.0@ == entries(Map::empty(), if ptr.left@ is None { seq![] } else { ptr.left@->0 }),
//@before while
    let ghost all = ptr.left@->0;
//@loop 0
    invariant
        ptr.left@ is Some,
        entries(map@, ptr.left@->0) == entries(Map::empty(), all),
    decreases ptr.left@->0.len(),
//@before let ( k , v )
    proof {
        if sep is Some { sep_is(bytes@, sep->0 as int); } else { sep_is(bytes@, bytes@.len() as int); }
    }
//@end

//@fn sudo_plugin/src/options/option_map.rs OptionMap::get_bytes
//@pub
//@subst Vec::as_slice => |v: &Vec<u8>| -> (r: &[u8]) ensures r@ == v@ { v.as_slice() }
//@spec
    ensures
        result is Some == self.0@.dom().contains(k@),
        result is Some ==> result->0@ == self.0@[k@],
//@end

//@fn sudo_plugin/src/options/option_map.rs OptionMap::get_str
//@pub
//@subst &str => &Str
//@subst str::from_utf8 => Str::from_utf8
//@closure 0 b: &[u8] -> (r: Option<&Str>) ensures r is Some == is_utf8(b@), r is Some ==> r->0@ == b@
//@spec
    ensures
        result is Some == text_of(*self, k@) is Some,
        result is Some ==> result->0@ == text_of(*self, k@)->0,
//@end

//@fn sudo_plugin/src/options/option_map.rs OptionMap::get
//@pub
//@subst &str => &Str
//@subst Result<T> => Result<T, Error>
//@rename into to_text
//@closure 0 _e: T::Err -> (r: Error) ensures r is OptionInvalid, r->OptionInvalid_key@ == k@, r->OptionInvalid_value@ == v@
//@spec
    ensures
        text_of(*self, k@) is None ==> result is Err && result->Err_0 is OptionMissing && result->Err_0->OptionMissing_key@ == k@,
        text_of(*self, k@) is Some ==> T::means(text_of(*self, k@)->0, ok(result)),
        text_of(*self, k@) is Some && result is Err ==> result->Err_0 is OptionInvalid && result->Err_0->OptionInvalid_key@ == k@
            && result->Err_0->value@ == text_of(*self, k@)->0,
//@end
}
}
fn main(){}
