//@include head.rs
verus!{
//@include prelude.rs
//@include texts.rs

/// sudo's message function prints a text on a channel. Which message functions
/// there are and what they answer is not known; what one says it has printed it
/// has printed, the rest of the text it has not.
#[derive(Clone, Copy)]
pub struct Printf { pub f: usize }
#[derive(Clone, Copy)]
pub enum Level { Info, Error }
pub mod io {
    pub struct Error { pub e: u8 }
    pub enum ErrorKind { NotConnected, InvalidData }
}
#[verifier::external_body]
pub fn last_os_error() -> io::Error { unimplemented!() }
#[verifier::external_body]
pub fn io_error<E>(k: io::ErrorKind, e: E) -> io::Error { unimplemented!() }
pub struct NulError { pub at: usize }
#[verifier::external_body]
pub struct Message { s: std::ffi::CString }
impl View for Message { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Message {
    #[verifier::external_body]
    pub fn new(t: &[u8]) -> (r: Result<Message, NulError>) ensures r is Ok == !t@.contains(0), r is Ok ==> r->Ok_0@ == t@ { unimplemented!() }
}
pub struct PrintFacility {
    pub facility: Option<Printf>,
    pub level: Level,
    pub tag: Vec<u8>,
    /// what was printed on the channel
    pub out: Ghost<Seq<u8>>,
}
impl PrintFacility {
    /// sudo's message function is called with a format and one text
    #[verifier::external_body]
    pub fn call(&mut self, p: Printf, level: Level, format: &[u8; 3], text: &Message) -> (r: i32)
        requires format@ == b"%s\0"@, level == old(self).level, old(self).facility == Some(p)
        ensures
            final(self).facility == old(self).facility, final(self).level == old(self).level, final(self).tag == old(self).tag,
            r < 0 ==> final(self).out@ == old(self).out@,
            r >= 0 ==> r <= text@.len() && final(self).out@ == old(self).out@ + text@.take(r as int),
    { unimplemented!() }
    /// std's Write::write_all over the contract of `write` below
    #[verifier::external_body]
    pub fn write_all(&mut self, t: &[u8]) -> (r: Result<(), io::Error>)
        ensures
            final(self).same(*old(self)),
            wrote(*old(self), *final(self), t@, r is Ok),
            t@.contains(0) ==> r is Err && final(self).out@ == old(self).out@,
            t@.len() > 0 && old(self).facility is None ==> r is Err,
    { unimplemented!() }
    pub open spec fn same(self, o: PrintFacility) -> bool { self.facility == o.facility && self.level == o.level && self.tag == o.tag }
}
/// all of a text was printed, or, on failure, a part of it
pub open spec fn wrote(a: PrintFacility, b: PrintFacility, t: Seq<u8>, done: bool) -> bool {
    if done { b.out@ == a.out@ + t } else { exists|n: int| 0 <= n <= t.len() && b.out@ == a.out@ + #[trigger] t.take(n) }
}
pub broadcast proof fn wrote_part(a: PrintFacility, b: PrintFacility, c: PrintFacility, s: Seq<u8>, t: Seq<u8>, done: bool)
    requires #[trigger] wrote(a, b, s, true), #[trigger] wrote(b, c, t, done)
    ensures wrote(a, c, s + t, done)
{
    assert(a.out@ + s + t =~= a.out@ + (s + t));
    if !done {
        let n = choose|n: int| 0 <= n <= t.len() && c.out@ == b.out@ + #[trigger] t.take(n);
        assert((s + t).take(s.len() + n) =~= s + t.take(n));
        assert(a.out@ + s + t.take(n) =~= a.out@ + (s + t.take(n)));
    }
}
pub broadcast proof fn wrote_more(a: PrintFacility, b: PrintFacility, s: Seq<u8>, t: Seq<u8>)
    requires #[trigger] wrote(a, b, s, false)
    ensures wrote(a, b, #[trigger] (s + t), false)
{
    let n = choose|n: int| 0 <= n <= s.len() && b.out@ == a.out@ + #[trigger] s.take(n);
    assert((s + t).take(n) =~= s.take(n));
}
pub open spec fn tagged(tag: Seq<u8>, t: Seq<u8>) -> Seq<u8> { tag + t + b"\n"@ }

/// an error and its causes, outermost first: any finite chain
#[verifier::external_body]
pub struct Cause { c: u8 }
impl Cause {
    pub uninterp spec fn texts(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub proof fn some_text(&self) ensures self.texts().len() > 0 { }
    #[verifier::external_body]
    pub fn source(&self) -> (r: Option<&Cause>)
        ensures
            r is Some == (self.texts().len() > 1),
            r is Some ==> r->0.texts() == self.texts().skip(1),
    { unimplemented!() }
}
impl VShow for &Cause {
    open spec fn shown(&self) -> Seq<u8> { self.texts()[0] }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
pub open spec fn lines(tag: Seq<u8>, t: Seq<Seq<u8>>) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { seq![] } else { tagged(tag, t[0]) + lines(tag, t.skip(1)) }
}

impl VShow for Str {
    open spec fn shown(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn nothing() -> (r: Ghost<Seq<u8>>) { unimplemented!() }
pub trait VEmpty {
    spec fn or_empty(&self) -> Seq<u8>;
    fn v_or_empty(self) -> (r: Vec<u8>) ensures r@ == self.or_empty();
}
impl VEmpty for Option<Vec<u8>> {
    open spec fn or_empty(&self) -> Seq<u8> { if *self is Some { (*self)->0@ } else { seq![] } }
    #[verifier::external_body]
    fn v_or_empty(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl PrintFacility {
    // derived
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: PrintFacility) ensures r.facility == self.facility, r.level == self.level, r.tag@ == self.tag@, r.out == self.out { unimplemented!() }
//@fn sudo_plugin/src/output/print_facility.rs PrintFacility::new
//@pub
//@subst &str => &Str
//@subst sudo_printf_t => Option<Printf>
//@subst level: Level::Info => level: Level::Info, out: nothing()
//@rename into v_into
//@rename clone v_clone
//@rename unwrap_or_default v_or_empty
//@closure 0 name: &Str -> (r: Vec<u8>) ensures r@ =~= name@ + b": "@
//@spec
    ensures
        result.0.facility == printf, result.1.facility == printf,
        result.0.level is Info, result.1.level is Error,
        result.0.tag@ == if name is Some { name->0@ + b": "@ } else { seq![] },
        result.1.tag@ == result.0.tag@,
//@end

//@fn sudo_plugin/src/output/print_facility.rs PrintFacility::write_line
//@pub
//@subst io::Result<()> => Result<(), io::Error>
//@spec
    ensures
        final(self).same(*old(self)),
        wrote(*old(self), *final(self), tagged(old(self).tag@, line@), result is Ok),
//@head
    broadcast use {wrote_part, wrote_more};
//@end

//@fn sudo_plugin/src/output/print_facility.rs PrintFacility::write_error
//@attr #[verifier::loop_isolation(false)]
//@pub
//@subst io::Result<()> => Result<(), io::Error>
//@subst &dyn Error => &Cause
//@spec
    ensures
        final(self).same(*old(self)),
        wrote(*old(self), *final(self), b"\n"@ + lines(old(self).tag@, error.texts()), result is Ok),
//@head
    broadcast use {wrote_part, wrote_more};
//@before self . write_all
    proof { error.some_text(); }
    let ghost chain = error.texts();
    let ghost tag = self.tag@;
    let ghost mut said = b"\n"@ + tagged(tag, chain[0]);
    let ghost mut left = chain.skip(1);
    assert(b"\n"@ + lines(tag, chain) =~= said + lines(tag, left));
//@loop 0
    invariant
        self.same(*old(self)),
        tag == old(self).tag@,
        left == if source is Some { source->0.texts() } else { seq![] },
        wrote(*old(self), *self, said, true),
        b"\n"@ + lines(tag, chain) == said + lines(tag, left),
    decreases left.len(),
//@body 0
    broadcast use {wrote_part, wrote_more};
    proof {
        source->0.some_text();
        assert(said + lines(tag, left) =~= (said + tagged(tag, left[0])) + lines(tag, left.skip(1)));
        assert(Seq::<u8>::empty() + left[0] =~= left[0]);
        said = said + tagged(tag, left[0]);
        left = left.skip(1);
    }
//@tail
    assert(left.len() == 0);
    assert(lines(tag, left) =~= Seq::<u8>::empty());
    assert(said + lines(tag, left) =~= said);
//@end

//@fn sudo_plugin/src/output/print_facility.rs Write for PrintFacility::write
//@pub
//@subst io::Result<usize> => Result<usize, io::Error>
//@subst io::Error::new => io_error
//@subst io::Error::last_os_error => last_os_error
//@subst CString::new => Message::new
//@subst (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr()) => self.call(printf, self.level, b"%s\0", &message)
//@subst c as _ => c as usize
//@closure 0  -> (r: io::Error)
//@closure 1 err: NulError -> (r: io::Error)
//@spec
    ensures
        final(self).same(*old(self)),
        result is Ok ==> result->Ok_0 <= buf@.len() && final(self).out@ == old(self).out@ + buf@.take(result->Ok_0 as int),
        result is Err ==> final(self).out@ == old(self).out@,
        old(self).facility is None ==> result is Err,
        buf@.contains(0) ==> result is Err,
//@end
//@fn sudo_plugin/src/output/print_facility.rs Write for PrintFacility::flush
//@pub
//@subst io::Result<()> => Result<(), io::Error>
//@spec
    ensures result is Ok, *final(self) == *old(self),
//@end
}
}
fn main(){}
