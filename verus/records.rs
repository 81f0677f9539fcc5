// the records as sudo_plugin declares them (the raw maps left out)
//@struct sudo_plugin/src/options/settings.rs Settings -network_addrs -raw
//@struct sudo_plugin/src/options/user_info.rs UserInfo -raw
//@struct sudo_plugin/src/options/command_info.rs CommandInfo -raw
//@struct sudo_plugin/src/plugin/io_env.rs IoEnv -api_version -user_env -plugin_options -stdout -stderr -_conversation

/// the groups a command will have: those passed by sudo, or the user's, and the primary one
pub open spec fn command_gids(e: IoEnv) -> Set<u32> {
    (if e.command_info.runas_groups is Some { e.command_info.runas_groups->0@ } else { e.user_info.groups@ }).to_set().insert(e.command_info.runas_egid)
}
/// the long form of each option that was given, in order
#[verifier::opaque]
pub open spec fn add(f: Seq<Seq<u8>>, given: bool, t: Seq<u8>) -> Seq<Seq<u8>> { if given { f.push(t) } else { f } }
#[verifier::opaque]
pub open spec fn val(f: Seq<Seq<u8>>, o: Option<String>, t: Seq<u8>) -> Seq<Seq<u8>> { if o is Some { f.push(t + o->0@) } else { f } }
#[verifier::opaque]
pub open spec fn num(f: Seq<Seq<u8>>, o: Option<u64>, t: Seq<u8>) -> Seq<Seq<u8>> { if o is Some { f.push(t + dec(o->0 as int)) } else { f } }
pub open spec fn given_flags(s: Settings) -> Seq<Seq<u8>> {
    let f = Seq::<Seq<u8>>::empty();
    let f = add(f, s.sudoedit && chars(s.progname@) != "sudoedit"@, b"--edit"@);
    let f = val(f, s.runas_user, b"--user "@);
    let f = val(f, s.runas_group, b"--group "@);
    let f = val(f, s.prompt, b"--prompt "@);
    let f = add(f, s.login_shell, b"--login"@);
    let f = add(f, s.run_shell, b"--shell"@);
    let f = add(f, s.set_home, b"--set-home"@);
    let f = add(f, s.preserve_environment, b"--preserve-env"@);
    let f = add(f, s.preserve_groups, b"--preserve-groups"@);
    let f = add(f, s.ignore_ticket, b"--reset-timestamp"@);
    let f = add(f, s.noninteractive, b"--non-interactive"@);
    let f = val(f, s.login_class, b"--login-class "@);
    let f = val(f, s.selinux_role, b"--role "@);
    let f = val(f, s.selinux_type, b"--type "@);
    let f = val(f, s.bsd_auth_type, b"--auth-type "@);
    num(f, s.close_from, b"--close-from "@)
}
/// each argument behind a space
pub open spec fn behind_spaces(t: Seq<CString>) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { seq![] } else { behind_spaces(t.drop_last()).push(32) + t.last()@ }
}
pub open spec fn invoked(e: IoEnv) -> Seq<u8> {
    let f = given_flags(e.settings);
    (if f.len() == 0 { e.settings.progname@ } else { e.settings.progname@.push(32) + joined(f, 32) }) + behind_spaces(e.cmdline@)
}
