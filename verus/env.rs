//@include head.rs
verus!{
//@include prelude.rs
//@include texts.rs

pub type c_uint = u32;
pub type c_int = i32;
pub mod sys {
    #[derive(Clone, Copy)]
    pub struct sudo_printf_t { pub f: usize }
    pub struct sudo_conv_t { pub f: usize }
}
/// a table of pointers to texts
#[derive(Clone, Copy)]
pub struct RawTable { pub p: usize }
#[derive(Clone, Copy)]
pub struct RawArg { pub p: usize }
/// the texts that sudo passed: of so many arguments, and at a pointer
pub uninterp spec fn passed(t: RawTable, n: int) -> Seq<RawArg>;
pub uninterp spec fn text_at(a: RawArg) -> Seq<u8>;
impl RawTable {
    pub uninterp spec fn null(self) -> bool;
    #[verifier::external_body]
    pub fn is_null(self) -> (r: bool) ensures r == self.null() { unimplemented!() }
    #[verifier::external_body]
    pub fn cast(self) -> (r: RawTable) ensures r == self { unimplemented!() }
}
/// as many entries as sudo says there are
#[verifier::external_body]
pub fn from_raw_parts(t: RawTable, n: usize) -> (r: Args) requires !t.null() ensures r@ == passed(t, n as int), r@.len() == n { unimplemented!() }
#[verifier::external_body]
pub struct Args { v: std::vec::Vec<RawArg> }
impl View for Args { type V = Seq<RawArg>; uninterp spec fn view(&self) -> Seq<RawArg>; }
impl Args {
    #[verifier::external_body]
    pub fn none() -> (r: Args) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Args) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut(&mut self) -> (r: Iter<RawArg>) ensures r@ == old(self)@, final(self)@ == old(self)@ { unimplemented!() }
}
pub struct CStr { pub c: usize }
impl CStr {
    #[verifier::external_body]
    pub fn from_ptr(a: RawArg) -> (r: CText) ensures r@ == text_at(a) { unimplemented!() }
}
#[verifier::external_body]
pub struct CText { s: std::ffi::CString }
impl View for CText { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl CText {
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: CString) ensures r@ == self@ { unimplemented!() }
}
impl Error {
    #[verifier::external_body]
    pub fn other() -> Error { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Version { pub v: u32 }
impl Version {
    // Kani: version.rs
    #[verifier::external_body]
    pub fn from(v: c_uint) -> (r: Version) ensures r.v == v { unimplemented!() }
    #[verifier::external_body]
    pub fn check(self) -> (r: Result<Version, Error>) ensures r is Ok == (self.v >= 0x10009), r is Ok ==> r->Ok_0 == self { unimplemented!() }
}
#[verifier::external_body]
pub struct PrintFacility { p: usize }
/// prints under this name, with this function, as errors or not
pub uninterp spec fn prints(p: PrintFacility, name: Option<&'static str>, f: sys::sudo_printf_t, errors: bool) -> bool;
impl PrintFacility {
    // print.rs
    #[verifier::external_body]
    pub fn new(name: Option<&'static str>, p: sys::sudo_printf_t) -> (r: (PrintFacility, PrintFacility))
        ensures prints(r.0, name, p, false), prints(r.1, name, p, true),
    { unimplemented!() }
    // derived
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PrintFacility) ensures r == *self { unimplemented!() }
}
/// a record as it is decoded (Kani: options/*.rs)
pub struct Settings { pub from: Ghost<RawTable> }
pub struct UserInfo { pub from: Ghost<RawTable> }
pub struct CommandInfo { pub from: Ghost<RawTable> }
pub uninterp spec fn table_of(m: OptionMap) -> RawTable;
impl OptionMap {
    #[verifier::external_body]
    pub fn from_raw(t: RawTable) -> (r: OptionMap) ensures table_of(r) == t { unimplemented!() }
    #[verifier::external_body]
    pub fn try_into<R: Record>(self) -> (r: Result<R, Error>) ensures r is Ok ==> r->Ok_0.table() == table_of(self) { unimplemented!() }
}
pub trait Record: Sized { spec fn table(&self) -> RawTable; }
impl Record for Settings { open spec fn table(&self) -> RawTable { self.from@ } }
impl Record for UserInfo { open spec fn table(&self) -> RawTable { self.from@ } }
impl Record for CommandInfo { open spec fn table(&self) -> RawTable { self.from@ } }
//@struct sudo_plugin/src/plugin/io_env.rs IoEnv
impl IoEnv {
//@fn sudo_plugin/src/plugin/io_env.rs IoEnv::new
//@pub
//@subst Result<Self> => Result<Self, Error>
//@subst *const *mut c_char => RawTable
//@subst slice::from_raw_parts => from_raw_parts
//@subst vec![] => Args::none()
//@subst from_ptr(*ptr) => from_ptr(ptr)
//@closure 0 ptr: RawArg -> (r: CString) ensures r@ == text_at(ptr)
//@spec
    requires argc >= 0
    ensures
        version < 0x10009 ==> result is Err,
        result is Ok ==> result->Ok_0.cmdline@.len() == if argv.null() { 0int } else { argc as int },
        result is Ok && !argv.null() ==> forall|i: int| 0 <= i < argc ==> (#[trigger] result->Ok_0.cmdline@[i])@ == text_at(passed(argv, argc as int)[i]),
        result is Ok ==> result->Ok_0.api_version.v == version,
        // each record and each map from its own list
        result is Ok ==> result->Ok_0.settings.table() == settings && result->Ok_0.user_info.table() == user_info && result->Ok_0.command_info.table() == command_info,
        result is Ok ==> table_of(result->Ok_0.user_env) == user_env && table_of(result->Ok_0.plugin_options) == plugin_options,
        result is Ok ==> prints(result->Ok_0.stdout, Some(plugin_name), plugin_printf, false) && prints(result->Ok_0.stderr, Some(plugin_name), plugin_printf, true),
//@end
//@fn sudo_plugin/src/plugin/io_env.rs IoEnv::stdout
//@pub
//@spec
    ensures result == self.stdout,
//@end
//@fn sudo_plugin/src/plugin/io_env.rs IoEnv::stderr
//@pub
//@spec
    ensures result == self.stderr,
//@end
}
}
fn main(){}
