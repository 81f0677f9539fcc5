//@include head.rs
verus!{
//@include prelude.rs
//@include texts.rs
//@include records.rs
//@const sudo_pair/src/template.rs DEFAULT_ESCAPE_BYTE
//@struct sudo_pair/src/template.rs Spec
//@struct sudo_pair/src/lib.rs SudoPair -socket -slog
//@struct sudo_pair/src/lib.rs PluginOptions

/// a panic
#[verifier::external_body]
pub fn panics() -> ! ensures false { panic!() }
pub mod libc {
    use super::*;
    pub const S_IWUSR: u32 = 0o200;
    pub const S_IWGRP: u32 = 0o020;
}

// ------------------------------------------------------------- what is decided
pub open spec fn from_root(s: SudoPair) -> bool { s.env.user_info.uid == s.env.user_info.euid }
pub open spec fn to_user(s: SudoPair) -> bool { s.env.user_info.uid != s.env.command_info.runas_euid }
pub open spec fn to_group(s: SudoPair) -> bool { s.env.user_info.gid != s.env.command_info.runas_egid }
pub open spec fn explicit_group(s: SudoPair) -> bool { s.env.settings.runas_group is Some }
pub open spec fn approving(s: SudoPair) -> bool { same_path(s.env.command_info.command@, s.options.binary_path@) }
pub open spec fn not_logged(s: SudoPair) -> bool {
    !s.env.command_info.iolog_ttyout && !s.env.command_info.iolog_stdout && !s.env.command_info.iolog_stderr
}
pub open spec fn from_exempted(s: SudoPair) -> bool {
    exists|i: int| 0 <= i < s.env.user_info.groups@.len() && s.options.gids_exempted@.contains(#[trigger] s.env.user_info.groups@[i])
}
pub open spec fn to_enforced(s: SudoPair) -> bool {
    exists|g: u32| s.options.gids_enforced@.contains(g) && #[trigger] command_gids(*s.env).contains(g)
}
/// C02
pub open spec fn exempt(s: SudoPair) -> bool {
    from_root(s) || (!to_user(s) && !to_group(s)) || approving(s) || not_logged(s) || from_exempted(s) || !to_enforced(s)
}
/// C07
pub open spec fn socket_name(s: SudoPair) -> Seq<u8> {
    dec(s.env.user_info.uid as int) + b"."@ + dec(s.env.user_info.pid as int) + b".sock"@
}
/// C12
pub open spec fn name_of(o: PluginOptions) -> Seq<u8> {
    if path_name(o.binary_path@) is Some { path_name(o.binary_path@)->0 } else { o.binary_path@ }
}
pub open spec fn variables(s: SudoPair) -> Map<u8, Seq<u8>> {
    Map::<u8, Seq<u8>>::empty()
        .insert(98, name_of(s.options))
        .insert(66, s.options.binary_path@)
        .insert(67, invoked(*s.env))
        .insert(100, if s.env.command_info.cwd is Some { s.env.command_info.cwd->0@ } else { s.env.user_info.cwd@ })
        .insert(104, s.env.user_info.host@)
        .insert(72, dec(s.env.user_info.lines as int))
        .insert(103, dec(s.env.user_info.gid as int))
        .insert(112, dec(s.env.user_info.pid as int))
        .insert(117, dec(s.env.user_info.uid as int))
        .insert(85, s.env.user_info.user@)
        .insert(87, dec(s.env.user_info.cols as int))
}
/// C08
pub open spec fn resize(lines: u64, cols: u64) -> Seq<u8> {
    b"\x1b[8;"@ + dec(lines as int) + b";"@ + dec(cols as int) + b"t"@
}
/// what writing a text to the pair comes to
pub struct PairError { pub kind: u8 }
pub uninterp spec fn sent(s: SudoPair, t: Seq<u8>) -> Result<(), PairError>;
impl SudoPair {
    #[verifier::external_body]
    fn log_output(&self, t: &[u8]) -> (r: Result<(), PairError>) ensures r == sent(*self, t@) { unimplemented!() }
}

impl Settings {
//@contract io_env Settings::flags
}
impl IoEnv {
//@contract io_env IoEnv::invocation
//@contract io_env IoEnv::cwd
//@contract io_env IoEnv::runas_gids
}
impl Spec {
//@contract template Spec::with_escape
//@contract template Spec::replace
}

impl OptionMap {
//@contract options OptionMap::get
}
impl FromSudoOption for PathBuf {
    type Err = ParseError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v is Some && v->0@ == s }
//@contract traits FromSudoOption for PathBuf::from_sudo_option
}
impl FromSudoOption for u32 {
    type Err = ParseIntError;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { v == u32_of(s) }
//@contract traits FromSudoOption for u32::from_sudo_option
}
// verus/traits.rs: the default separator and list
impl FromSudoOptionList for u32 {
    open spec fn by() -> u8 { 44 }
    proof fn ascii() { }
    #[verifier::external_body]
    fn separator() -> (r: char) { ',' }
    #[verifier::external_body]
    fn from_sudo_option_list(s: &Str) -> (r: Vec<&Str>) { unimplemented!() }
}
impl<T> FromSudoOption for HashSet<T>
where
    T: FromSudoOption + FromSudoOptionList,
{
    type Err = ParseListError<T::Err>;
    open spec fn means(s: Seq<u8>, v: Option<Self>) -> bool { if v is Some { set_of::<T>(s, v->0@) } else { bad::<T>(pieces(s, T::by())) } }
//@contract traits FromSudoOption for HashSet::from_sudo_option
}
pub trait VPath {
    spec fn spelt(&self) -> Seq<u8>;
    fn v_path(&self) -> (r: PathBuf) ensures r@ == self.spelt();
}
impl VPath for str {
    open spec fn spelt(&self) -> Seq<u8> { utf8(self@) }
    #[verifier::external_body]
    fn v_path(&self) -> (r: PathBuf) { unimplemented!() }
}
pub trait VNone<T> {
    spec fn or_none(&self) -> Set<T>;
    fn v_or_none(self) -> (r: HashSet<T>) ensures r@ == self.or_none();
}
impl<T> VNone<T> for Result<HashSet<T>, Error> {
    open spec fn or_none(&self) -> Set<T> { if *self is Ok { (*self)->Ok_0@ } else { Set::empty() } }
    #[verifier::external_body]
    fn v_or_none(self) -> (r: HashSet<T>) { unimplemented!() }
}
//@const sudo_pair/src/lib.rs DEFAULT_BINARY_PATH
//@const sudo_pair/src/lib.rs DEFAULT_USER_PROMPT_PATH
//@const sudo_pair/src/lib.rs DEFAULT_PAIR_PROMPT_PATH
//@const sudo_pair/src/lib.rs DEFAULT_SOCKET_DIR
//@const sudo_pair/src/lib.rs DEFAULT_GIDS_ENFORCED
/// an option that is a path, and one that is a list of groups
pub open spec fn path_option(m: OptionMap, k: Seq<char>, default: Seq<char>) -> Seq<u8> {
    if text_of(m, utf8(k)) is Some { text_of(m, utf8(k))->0 } else { utf8(default) }
}
pub open spec fn group_option(m: OptionMap, k: Seq<char>, default: Set<u32>, v: Set<u32>) -> bool {
    let t = text_of(m, utf8(k));
    t is Some && set_of::<u32>(t->0, v) || (t is None || bad::<u32>(pieces(t->0, 44))) && v == default
}
impl PluginOptions {
//@fn sudo_pair/src/lib.rs From for PluginOptions::from
//@pub
//@literals
//@rename into v_path
//@rename iter v_iter
//@rename unwrap_or_default v_or_none
//@closure 0 _e: Error -> (r: PathBuf) ensures r@ == utf8("/usr/bin/sudo_approve"@)
//@closure 1 _e: Error -> (r: PathBuf) ensures r@ == utf8("/etc/sudo_pair.prompt.user"@)
//@closure 2 _e: Error -> (r: PathBuf) ensures r@ == utf8("/etc/sudo_pair.prompt.pair"@)
//@closure 3 _e: Error -> (r: PathBuf) ensures r@ == utf8("/var/run/sudo_pair"@)
//@closure 4 _e: Error -> (r: HashSet<gid_t>) ensures r@ =~= set![0u32]
//@subst &'a OptionMap => &OptionMap
//@spec
    ensures
        result.binary_path@ == path_option(*map, "binary_path"@, "/usr/bin/sudo_approve"@),
        result.user_prompt_path@ == path_option(*map, "user_prompt_path"@, "/etc/sudo_pair.prompt.user"@),
        result.pair_prompt_path@ == path_option(*map, "pair_prompt_path"@, "/etc/sudo_pair.prompt.pair"@),
        result.socket_dir@ == path_option(*map, "socket_dir"@, "/var/run/sudo_pair"@),
        group_option(*map, "gids_enforced"@, set![0u32], result.gids_enforced@),
        group_option(*map, "gids_exempted"@, Set::empty(), result.gids_exempted@),
//@end
//@fn sudo_pair/src/lib.rs PluginOptions::binary_name
//@pub
//@closure 0  -> (r: &OsStr) ensures r@ == self.binary_path@
//@spec
    ensures result@ == name_of(*self),
//@end
}
impl SudoPair {
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_from_root
//@spec
    ensures result == from_root(*self),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_to_user
//@spec
    ensures result == to_user(*self),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_to_group
//@spec
    ensures result == to_group(*self),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_to_explicit_group
//@spec
    ensures result == explicit_group(*self),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_to_themselves
//@spec
    ensures result == (!to_user(*self) && !to_group(*self)),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_approval_command
//@spec
    ensures result == approving(*self),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_exempted_from_logging
//@spec
    ensures result == not_logged(*self),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_to_user_and_group
//@spec
    ensures result == (to_user(*self) && explicit_group(*self)),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_from_exempted_gid
//@rename iter v_iter
//@spec
    ensures result == from_exempted(*self),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_sudoing_to_enforced_gid
//@rename iter v_iter
//@spec
    ensures result == to_enforced(*self),
//@end
//@fn sudo_pair/src/lib.rs SudoPair::is_exempt
//@spec
    ensures result == exempt(*self),
//@end

//@fn sudo_pair/src/lib.rs SudoPair::socket_uid
//@subst uid_t::max_value() => u32::MAX
//@spec
    ensures result == if to_user(*self) { self.env.command_info.runas_euid } else { u32::MAX },
//@end
//@fn sudo_pair/src/lib.rs SudoPair::socket_gid
//@subst gid_t::max_value() => u32::MAX
//@spec
    ensures result == if explicit_group(*self) { self.env.command_info.runas_egid } else { u32::MAX },
//@end
//@fn sudo_pair/src/lib.rs SudoPair::socket_mode
//@diverges
//@spec
    ensures
        to_user(*self) || explicit_group(*self),
        result == if to_user(*self) { 0o200u32 } else { 0o020u32 },
//@end
//@fn sudo_pair/src/lib.rs SudoPair::socket_path
//@spec
    ensures result@ == path_join(self.options.socket_dir@, socket_name(*self)),
//@tail
    assert(Seq::<u8>::empty() + dec(self.env.user_info.uid as int) =~= dec(self.env.user_info.uid as int));
//@end
//@fn sudo_pair/src/lib.rs SudoPair::template_spec
//@rename to_string v_to_string
//@spec
    ensures result.escape == 37, result.expansions@ == variables(*self),
//@end
//@fn sudo_pair/src/lib.rs IoPlugin for SudoPair::change_winsize
//@subst Result<()> => Result<(), PairError>
//@spec
    ensures result == sent(*self, resize(lines, cols)),
//@tail
    assert(Seq::<u8>::empty() + b"\x1b[8;"@ + dec(lines as int) + b";"@ + dec(cols as int) + b"t"@ =~= resize(lines, cols));
//@end
}
}
fn main(){}
