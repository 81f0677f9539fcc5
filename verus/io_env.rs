//@include head.rs
verus!{
//@include prelude.rs
//@include records.rs

impl Settings {
//@fn sudo_plugin/src/options/settings.rs Settings::flags
//@pub
//@subst Vec<Vec<u8>> => Texts
//@subst vec![] => Texts::new()
//@rename to_vec v_to_vec
//@rename extend_from_slice v_extend_from_slice
//@rename to_string v_to_string
//@spec
    ensures result@ == given_flags(*self),
//@before if self . sudoedit
    let ghost g = flags@;
//@before if let Some ( ref runas_user )
    let ghost g = add(g, self.sudoedit && chars(self.progname@) != "sudoedit"@, b"--edit"@);
    assert(flags@ == g) by { reveal(add); }
//@before if let Some ( ref runas_group )
    let ghost g = val(g, self.runas_user, b"--user "@);
    assert(flags@ == g) by { reveal(val); }
//@before if let Some ( ref prompt )
    let ghost g = val(g, self.runas_group, b"--group "@);
    assert(flags@ == g) by { reveal(val); }
//@before if self . login_shell
    let ghost g = val(g, self.prompt, b"--prompt "@);
    assert(flags@ == g) by { reveal(val); }
//@before if self . run_shell
    let ghost g = add(g, self.login_shell, b"--login"@);
    assert(flags@ == g) by { reveal(add); }
//@before if self . set_home
    let ghost g = add(g, self.run_shell, b"--shell"@);
    assert(flags@ == g) by { reveal(add); }
//@before if self . preserve_environment
    let ghost g = add(g, self.set_home, b"--set-home"@);
    assert(flags@ == g) by { reveal(add); }
//@before if self . preserve_groups
    let ghost g = add(g, self.preserve_environment, b"--preserve-env"@);
    assert(flags@ == g) by { reveal(add); }
//@before if self . ignore_ticket
    let ghost g = add(g, self.preserve_groups, b"--preserve-groups"@);
    assert(flags@ == g) by { reveal(add); }
//@before if self . noninteractive
    let ghost g = add(g, self.ignore_ticket, b"--reset-timestamp"@);
    assert(flags@ == g) by { reveal(add); }
//@before if let Some ( ref login_class )
    let ghost g = add(g, self.noninteractive, b"--non-interactive"@);
    assert(flags@ == g) by { reveal(add); }
//@before if let Some ( ref selinux_role )
    let ghost g = val(g, self.login_class, b"--login-class "@);
    assert(flags@ == g) by { reveal(val); }
//@before if let Some ( ref selinux_type )
    let ghost g = val(g, self.selinux_role, b"--role "@);
    assert(flags@ == g) by { reveal(val); }
//@before if let Some ( ref bsd_auth_type )
    let ghost g = val(g, self.selinux_type, b"--type "@);
    assert(flags@ == g) by { reveal(val); }
//@before if let Some ( close_from )
    let ghost g = val(g, self.bsd_auth_type, b"--auth-type "@);
    assert(flags@ == g) by { reveal(val); }
//@tail
    assert(flags@ == num(g, self.close_from, b"--close-from "@)) by { reveal(num); }
//@end
}
impl IoEnv {
//@fn sudo_plugin/src/plugin/io_env.rs IoEnv::invocation
//@pub
//@rename to_vec v_to_vec
//@rename extend_from_slice v_extend_from_slice
//@spec
    ensures result@ == invoked(*self),
//@loop 0 entries
    invariant
        entries.seq() == self.cmdline@.map_values(|c: CString| &c),
        sudo@ =~= sudo0 + behind_spaces(self.cmdline@.take(entries.index@)),
//@before for entry in
    let ghost sudo0 = sudo@;
//@before sudo . push ( b' ' ) ; sudo . v_extend_from_slice ( entry
    assert(self.cmdline@.take(entries.index@ + 1).drop_last() =~= self.cmdline@.take(entries.index@));
    assert(self.cmdline@.take(entries.index@ + 1).last() == self.cmdline@[entries.index@]);
//@tail
    assert(self.cmdline@.take(self.cmdline@.len() as int) =~= self.cmdline@);
//@end

//@fn sudo_plugin/src/plugin/io_env.rs IoEnv::cwd
//@pub
//@spec
    ensures *result == if self.command_info.cwd is Some { self.command_info.cwd->0 } else { self.user_info.cwd },
//@end

//@fn sudo_plugin/src/plugin/io_env.rs IoEnv::runas_gids
//@pub
//@rename iter v_iter
//@subst HashSet<_> => HashSet<gid_t>
//@spec
    ensures result@ == command_gids(*self),
//@end
}
}
fn main(){}
