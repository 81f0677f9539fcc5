"""Which proof units decide which property, and what they report."""
import os, re, threading, time
import kani, verus


class Unit:
    def __init__(self, name, package, harness, props, functions, bounded="", covers=1, timeout=300, features=(), tier="quick", panics=False):
        # panics: a panic that is caught is one of the expected outcomes
        self.tier, self.panics = tier, panics
        self.name, self.package, self.harness, self.props = name, package, harness, props
        self.functions, self.bounded, self.covers, self.timeout = functions, bounded, covers, timeout


class Outcome:
    def __init__(self, unit, status, note="", bounded="", cmd="", backend="kani 0.68.0 / CBMC 6 (SAT)"):
        self.unit, self.status, self.note, self.bounded, self.cmd, self.backend = unit, status, note, bounded, cmd, backend
        self.total = self.passed = self.covers = 0
        self.seconds = 0.0
        self.failures, self.output = [], ""

    def shown(self):
        return "passed (bounded)" if self.bounded and self.status == "proved" else self.status

    def json(self):
        return {"unit": self.unit, "status": self.shown(), "obligations": self.total, "discharged": self.passed, "reachable_covers": self.covers,
                "backend": self.backend, "seconds": round(self.seconds, 2), "bounded": self.bounded or None, "note": self.note[-600:], "failures": self.failures}


DATA = ["core::log_ttyin", "core::log_ttyout", "core::log_stdin", "core::log_stdout", "core::log_stderr"]

GROUPS = ["SudoPair::is_exempt", "SudoPair::is_sudoing_from_exempted_gid", "SudoPair::is_sudoing_to_enforced_gid", "IoEnv::runas_gids"]

UNITS = [
    # ---- sudo_pair/src/socket.rs
    Unit("Socket::open", "sudo_pair", "socket_open", ("C04", "C05", "C06", "C07", "C14"),
         ["Socket::open", "Socket::unlink", "Socket::enforce_ownership"], covers=3),
    Unit("Socket::read", "sudo_pair", "socket_read", ("C01", "C08", "C14"), ["<Socket as Read>::read", "ctrl_c_aborts_syscalls"], covers=3),
    Unit("Socket::write", "sudo_pair", "socket_write", ("C08", "C14"), ["<Socket as Write>::write", "ctrl_c_aborts_syscalls"], covers=3),
    Unit("Socket::flush", "sudo_pair", "socket_flush", ("C01", "C08", "C14"), ["<Socket as Write>::flush", "ctrl_c_aborts_syscalls"], covers=3),
    Unit("Socket::close", "sudo_pair", "socket_close", ("C11",), ["Socket::close", "Socket::drop"], covers=2),

    # ---- sudo_pair/src/lib.rs
    Unit("SudoPair::open", "sudo_pair", "pair_open", ("C01", "C02", "C03", "C08", "C09", "C10", "C11", "C12"),
         ["SudoPair::open", "SudoPair::is_exempt", "SudoPair::is_sudoing_from_root", "SudoPair::is_sudoing_to_themselves", "SudoPair::is_sudoing_to_user",
          "SudoPair::is_sudoing_to_group", "SudoPair::is_sudoing_to_user_and_group", "SudoPair::is_sudoing_to_explicit_group", "SudoPair::is_exempted_from_logging"], covers=4),
    Unit("SudoPair::remote_pair_connect", "sudo_pair", "remote_connect", ("C01", "C04", "C05", "C07", "C11"),
         ["SudoPair::remote_pair_connect", "SudoPair::socket_uid", "SudoPair::socket_gid", "SudoPair::socket_mode"], covers=3),
    Unit("SudoPair::local_pair_prompt, with a terminal", "sudo_pair", "local_prompt_tty", ("C12",), ["SudoPair::local_pair_prompt", "IoEnv::tty", "Tty::try_from", "<Tty as Write>::write"], covers=2),
    Unit("SudoPair::local_pair_prompt, without a terminal", "sudo_pair", "local_prompt_notty", ("C12",), ["SudoPair::local_pair_prompt", "IoEnv::stderr", "<PrintFacility as Write>::write"], covers=2),
    Unit("SudoPair::remote_pair_prompt", "sudo_pair", "remote_prompt", ("C01", "C08", "C12", "C14"), ["SudoPair::remote_pair_prompt"], covers=4),
    Unit("SudoPair::log_*", "sudo_pair", "pair_log", ("C08", "C09", "C10"),
         ["SudoPair::log_ttyin", "SudoPair::log_ttyout", "SudoPair::log_stdin", "SudoPair::log_stdout", "SudoPair::log_stderr", "SudoPair::log_output", "LogStatus::from(Error)"], covers=3),
    Unit("SudoPair: logging hints", "sudo_pair", "pair_hints", ("C10",), ["SudoPair::IGNORE_IOLOG_HINTS"]),
    Unit("SudoPair::change_winsize", "sudo_pair", "pair_winsize", ("C08", "C09"), ["SudoPair::change_winsize"], bounded="at most 99 rows and 9 columns"),
    Unit("SudoPair::close", "sudo_pair", "pair_close", ("C09", "C11"), ["SudoPair::close"], covers=2),
    Unit("SudoPair: drop", "sudo_pair", "pair_drop", ("C11",), ["SudoPair::drop", "Socket::drop"]),
    Unit("SudoPair::is_exempt: groups", "sudo_pair", "decide_groups1", ("C02",), GROUPS, bounded="sets of at most 1 group", covers=2),
    Unit("SudoPair::is_exempt: two groups", "sudo_pair", "decide_groups2", ("C02",), GROUPS, bounded="sets of at most 2 groups", covers=2, tier="thorough"),
    Unit("sudo_pair::Error: statuses", "sudo_pair", "pair_errors", ("C01", "C03", "C05", "C06", "C07", "C08", "C10", "C16"), ["OpenStatus::from(sudo_pair::Error)", "LogStatus::from(sudo_pair::Error)", "sudo_pair::Error::from(ErrorKind)", "sudo_pair::Error::from(sudo_plugin::Error)"]),
    Unit("SudoPair::socket_path", "sudo_pair", "pair_socket_path", ("C07",), ["SudoPair::socket_path"], bounded="numbers of one digit, one directory"),
    Unit("SudoPair::template_spec", "sudo_pair", "pair_variables", ("C12",), ["SudoPair::template_spec"], bounded="values of one digit or letter"),
] + [
    Unit("SudoPair::is_sudoing_approval_command, %s" % n, "sudo_pair", "approval_" + n, ("C02",), ["SudoPair::is_sudoing_approval_command"], bounded="one pair of paths each")
    for n in ("same", "other", "longer", "shorter", "name")
] + [
    # ---- sudo_pair/src/template.rs
    Unit("Spec::expand", "template_only", "template_expand3", ("C13",), ["Spec::expand"], bounded="templates of at most 3 bytes", covers=2),
    Unit("Spec::expand, 4 bytes", "template_only", "template_expand4", ("C13",), ["Spec::expand"], bounded="templates of at most 4 bytes", covers=2, tier="thorough"),
    Unit("Spec::expand, 5 bytes", "template_only", "template_expand5", ("C13",), ["Spec::expand"], bounded="templates of at most 5 bytes", covers=2, tier="thorough"),
    Unit("Spec::replace", "template_only", "template_replace", ("C13",), ["Spec::replace", "Spec::with_escape", "Spec::new"], bounded="two replacements"),

    # ---- sudo_plugin/src/core.rs
    Unit("data callbacks, hints honoured", "sudo_plugin", "data_honours", ("C15", "C16", "C17", "C18"), DATA, covers=2),
    Unit("data callbacks, hints ignored", "sudo_plugin", "data_ignores", ("C15", "C16", "C17", "C18"), DATA, covers=2),
    Unit("core::open", "sudo_plugin", "entry_open", ("C15", "C16", "C17", "C22"), ["core::open", "IoState::init"]),
    Unit("core::open, no command", "sudo_plugin", "open_without_command", ("C15", "C16", "C17", "C22"), ["core::open"]),
    Unit("core::open, no environment", "sudo_plugin", "open_without_env", ("C15", "C16", "C17", "C22"), ["core::open"]),
    Unit("core::close", "sudo_plugin", "entry_close", ("C15", "C17"), ["core::close", "IoState::drop"], covers=2),
    Unit("core::change_winsize", "sudo_plugin", "entry_winsize", ("C15", "C16", "C17", "C18"), ["core::change_winsize"], covers=2),
    Unit("core::show_version", "sudo_plugin", "entry_show_version", ("C15", "C16", "C17"), ["core::show_version"]),
    Unit("IoPlugin: version text left out", "sudo_plugin", "default_version", ("C17",), ["IoPlugin::show_version"], bounded="one name and version", covers=2),
    Unit("IoPlugin: callbacks left out", "sudo_plugin", "default_callbacks", ("C18",),
         ["IoPlugin::log_ttyin", "IoPlugin::log_ttyout", "IoPlugin::log_stdin", "IoPlugin::log_stdout", "IoPlugin::log_stderr", "IoPlugin::change_winsize", "IoPlugin::close", "IoPlugin::IGNORE_IOLOG_HINTS"]),
    Unit("callbacks without a plugin", "sudo_plugin", "absent_log", ("C17",), DATA + ["core::change_winsize"], panics=True),
    Unit("callbacks that panic", "sudo_plugin", "panicking", ("C15",), DATA + ["core::open", "core::close", "core::show_version", "core::change_winsize"], covers=3),

    Unit("plugin tables, unused slots", "sudo_plugin", "slot_rest", ("C27",), ["sudo_io_plugin! (event loop, signal and suspend slots)"]),
    Unit("plugin tables, open", "sudo_plugin", "slot_open", ("C27",), ["sudo_io_plugin! (open, close, show_version, change_winsize)"]),
    Unit("plugin tables, fields", "sudo_plugin", "empty_tables", ("C27",), ["sudo_io_plugin!"], covers=0),

    # ---- sudo_plugin/src/options
    Unit("Settings::try_from", "sudo_plugin", "record_settings", ("C22",), ["<Settings as TryFrom<OptionMap>>::try_from"], covers=2),
    Unit("UserInfo::try_from", "sudo_plugin", "record_user", ("C22",), ["<UserInfo as TryFrom<OptionMap>>::try_from"], covers=2),
    Unit("CommandInfo::try_from", "sudo_plugin", "record_command", ("C22",), ["<CommandInfo as TryFrom<OptionMap>>::try_from"]),
    Unit("OptionMap::from_raw, no list", "sudo_plugin", "list_null", ("C20",), ["OptionMap::from_raw"], covers=0),
    Unit("OptionMap::get_bytes, missing", "sudo_plugin", "get_missing", ("C21",), ["OptionMap::get", "OptionMap::get_str"]),
    Unit("OptionMap::get_str", "sudo_plugin", "get_raw", ("C21",), ["OptionMap::get_str", "OptionMap::get_bytes"], bounded="values of at most 3 bytes"),
    Unit("OptionMap::get", "sudo_plugin", "get_value", ("C21",), ["OptionMap::get"], bounded="values of at most 3 bytes"),
    Unit("bool::from_sudo_option", "sudo_plugin", "boolean", ("C21",), ["<bool as FromSudoOption>::from_sudo_option"], bounded="texts of at most 5 bytes"),
    Unit("String::from_sudo_option", "sudo_plugin", "strings", ("C21",), ["<String as FromSudoOption>::from_sudo_option", "<PathBuf as FromSudoOption>::from_sudo_option"], bounded="texts of at most 4 bytes", covers=0),
    Unit("NetAddr::from_sudo_option", "sudo_plugin", "net_addr", ("C21",), ["<NetAddr as FromSudoOption>::from_sudo_option"], bounded="texts of at most 4 bytes"),
    Unit("lists of numbers, one text", "sudo_plugin", "separated_numbers", ("C21",), ["<Vec as FromSudoOption>::from_sudo_option"], bounded="one text", covers=0),
    Unit("lists of addresses, one text", "sudo_plugin", "separated_addresses", ("C21",), ["<Vec as FromSudoOption>::from_sudo_option"], bounded="one text", covers=0),
    Unit("lists of numbers, two bytes", "sudo_plugin", "sep2_numbers", ("C21",), ["<Vec as FromSudoOption>::from_sudo_option"], bounded="texts of 2 bytes", tier="thorough"),
    Unit("lists of addresses, two bytes", "sudo_plugin", "sep2_addresses", ("C21",), ["<Vec as FromSudoOption>::from_sudo_option"], bounded="texts of 2 bytes", tier="thorough"),

    # ---- sudo_plugin/src/plugin/io_env.rs
    Unit("IoEnv::new", "sudo_plugin", "env_new", ("C17", "C19", "C20", "C22", "C23"), ["IoEnv::new"], covers=2),
] + [
    Unit("IoEnv::new, bad %s" % n, "sudo_plugin", "env_" + n, ("C19", "C20", "C22", "C23"), ["IoEnv::new"], covers=2)
    for n in ("settings", "user", "command")
] + [
    Unit("IoEnv::new, arguments", "sudo_plugin", "env_args", ("C23",), ["IoEnv::new"], bounded="two arguments"),
    Unit("IoEnv::cwd", "sudo_plugin", "working_directory", ("C12",), ["IoEnv::cwd"], bounded="one-letter paths"),
] + [
    Unit("IoEnv::runas_gids, %s" % n, "sudo_plugin", "gids_" + n, ("C24", "C02"), ["IoEnv::runas_gids"], bounded="lists of at most 2 groups")
    for n in ("own", "given", "empty")
] + [
    Unit("Settings::flags, %s" % n, "sudo_plugin", "flags_" + n, ("C23",), ["Settings::flags"], bounded="one set of options, values that end in any ASCII byte", covers=0)
    for n in ("all", "none", "even", "odd", "sudoedit")
] + [
    Unit("IoEnv::invocation, %s" % n, "sudo_plugin", "invocation_" + n, ("C23",), ["IoEnv::invocation"], bounded="one invocation", covers=0)
    for n in ("bare", "args", "flags", "both")
] + [
    Unit("OptionMap::from_raw, %d entries" % n, "sudo_plugin", "list%d" % n, ("C20",), ["OptionMap::from_raw", "OptionMap::get_bytes"], bounded="at most 2 entries of at most 3 bytes")
    for n in (0, 1, 2)
] + [
    Unit("%s::from_sudo_option" % t, "sudo_plugin", "number_" + t, ("C21",), ["<%s as FromSudoOption>::from_sudo_option" % t], bounded="texts of at most 4 bytes", covers=2)
    for t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64")
] + [
    Unit("Vec::from_sudo_option, %d items" % n, "sudo_plugin", "items%d" % n, ("C21",), ["<Vec as FromSudoOption>::from_sudo_option"], bounded="at most 3 items")
    for n in (0, 1, 2, 3)
] + [
    Unit("plugin tables, log_%s" % n, "sudo_plugin", "slot_" + n, ("C27",), ["sudo_io_plugin! (log_%s)" % n])
    for n in ("ttyin", "ttyout", "stdin", "stdout", "stderr")
] + [

    # ---- examples/raw_plugin_api
    Unit("deny_everything: check", "deny_everything", "deny_check", ("C28",), ["check"], covers=2),
    Unit("deny_everything: check, old sudo", "deny_everything", "deny_old", ("C28",), ["check"], covers=0),
    Unit("deny_everything: open", "deny_everything", "deny_open", ("C28",), ["open"]),
    Unit("deny_everything: table", "deny_everything", "deny_version", ("C27", "C28"), ["show_version", "deny_everything (the table)"]),

    # ---- sudo_plugin/src/version.rs
    Unit("Version: words", "sudo_plugin", "version_words", ("C19",), ["Version::from", "u32::from(Version)"]),
    Unit("sudo_api version helpers", "sudo_plugin", "version_helpers", ("C19",), ["sudo_api_mkversion", "sudo_api_version_get_major", "sudo_api_version_get_minor"]),
    Unit("sudo_plugin::Error: statuses", "sudo_plugin", "errors_deny", ("C15", "C16"), ["OpenStatus::from(sudo_plugin::Error)", "LogStatus::from(sudo_plugin::Error)"]),
    Unit("Version: order", "sudo_plugin", "version_order", ("C19",), ["Version::cmp", "Version::partial_cmp", "Version::eq"]),
    Unit("Version::check", "sudo_plugin", "version_check", ("C19",), ["Version::check"]),
    Unit("Version: text", "sudo_plugin", "version_text", ("C19",), ["<Version as Display>::fmt"], bounded="numbers up to 99; all numbers in the thorough tier"),
    Unit("Version: text, all", "sudo_plugin", "version_every", ("C19",), ["<Version as Display>::fmt"], tier="thorough"),

    # ---- sudo_plugin/src/output/print_facility.rs
    Unit("PrintFacility::new", "sudo_plugin", "print_tag", ("C25", "C26"), ["PrintFacility::new"], bounded="one name, and none"),
    Unit("PrintFacility::write", "sudo_plugin", "print_write", ("C25",), ["<PrintFacility as Write>::write", "<PrintFacility as Write>::flush"], bounded="texts of at most 3 bytes", covers=2),
] + [
    Unit("PrintFacility::write_line, %d bytes" % n, "sudo_plugin", "print_line%d" % n, ("C25",), ["PrintFacility::write_line"], bounded="texts of 0, 1 and 3 bytes", covers=2)
    for n in (0, 1, 3)
] + [
    Unit("PrintFacility::write_error, %d causes" % n, "sudo_plugin", "print_error%d" % n, ("C26",), ["PrintFacility::write_error"], bounded="at most 2 causes, texts of at most 2 bytes")
    for n in (0, 1, 2)
] + [
    Unit("PrintFacility::write_error, failing", "sudo_plugin", "print_error_failing", ("C25", "C26"), ["PrintFacility::write_error"], bounded="no causes"),
]


class VUnit:
    """a function of a Verus contract file. `refutes`: a rejected obligation of
    it is a violation (no loop, only numbers and truth values); of the others it
    is no answer, since a proof can also fail for want of a proof step."""
    def __init__(self, file, path, props, name=None, refutes=False):
        self.file, self.path, self.props, self.refutes = file, path, props, refutes
        self.name = (name or path) + " (Verus)"
        self.functions, self.bounded = [name or path], ""


SP = "SudoPair::"
VUNITS = [
    VUnit("template", "Spec::expand", ("C13",)),
    VUnit("template", "Spec::replace", ("C13",)),
    VUnit("template", "Spec::with_escape", ("C13",)),
    VUnit("template", "Spec::new", ("C13",)),
    VUnit("template", "From for Spec::from", ("C13",), "<Spec as From<HashMap<u8, Vec<u8>>>>::from"),
    VUnit("template", "Default for Spec::default", ("C13",), "Spec::default"),

    VUnit("env", "IoEnv::new", ("C17", "C22", "C23", "C25")),
    VUnit("env", "IoEnv::stdout", ("C25",)),
    VUnit("env", "IoEnv::stderr", ("C12", "C16", "C25")),
    VUnit("io_env", "Settings::flags", ("C23",)),
    VUnit("io_env", "IoEnv::invocation", ("C23", "C12")),
    VUnit("io_env", "IoEnv::cwd", ("C12",)),
    VUnit("io_env", "IoEnv::runas_gids", ("C24", "C02")),
] + [
    VUnit("session", SP + f, p, refutes=True) for f, p in (
        ("is_sudoing_from_root", ("C02",)), ("is_sudoing_to_user", ("C02", "C03", "C04")), ("is_sudoing_to_group", ("C02",)),
        ("is_sudoing_to_explicit_group", ("C03", "C04")), ("is_sudoing_to_themselves", ("C02",)), ("is_exempted_from_logging", ("C02",)),
        ("is_sudoing_to_user_and_group", ("C03",)), ("is_exempt", ("C02",)),
        ("socket_uid", ("C04",)), ("socket_gid", ("C04",)), ("socket_mode", ("C04",)))
] + [
    VUnit("session", SP + "is_sudoing_approval_command", ("C02",)),
    VUnit("session", SP + "is_sudoing_from_exempted_gid", ("C02",)),
    VUnit("session", SP + "is_sudoing_to_enforced_gid", ("C02", "C24")),
    VUnit("session", SP + "socket_path", ("C07",)),
    VUnit("session", SP + "template_spec", ("C12",)),
    VUnit("session", "PluginOptions::binary_name", ("C12",)),
    VUnit("session", "From for PluginOptions::from", ("C02", "C07", "C12"), "<PluginOptions as From<&OptionMap>>::from"),
    VUnit("session", "IoPlugin for SudoPair::change_winsize", ("C08", "C09"), "SudoPair::change_winsize"),

    VUnit("options", "OptionMap::from_raw", ("C20",)),
    VUnit("options", "OptionMap::get_bytes", ("C20", "C21")),
    VUnit("options", "OptionMap::get_str", ("C21",)),
    VUnit("options", "OptionMap::get", ("C21",)),
] + [
    VUnit("traits", "FromSudoOption for %s::from_sudo_option" % t, ("C21",), "<%s as FromSudoOption>::from_sudo_option" % t)
    for t in ("bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "String", "PathBuf", "Vec", "HashSet", "NetAddr")
] + [
    VUnit("traits", "trait FromSudoOptionList::from_sudo_option_list", ("C21",), "FromSudoOptionList::from_sudo_option_list"),

    VUnit("version", "Display for Version::fmt", ("C19",), "<Version as Display>::fmt"),
    VUnit("print", "PrintFacility::new", ("C25", "C26")),
    VUnit("print", "Write for PrintFacility::write", ("C25",), "<PrintFacility as Write>::write"),
    VUnit("print", "PrintFacility::write_line", ("C25", "C26")),
    VUnit("print", "PrintFacility::write_error", ("C25", "C26")),
    VUnit("print", "Write for PrintFacility::flush", ("C25",), "<PrintFacility as Write>::flush"),
]

LEVEL = {"C%02d" % i: "proof" for i in range(1, 29)}

LABEL = re.compile(r"^((?:C\d\d|model)(?:,C\d\d)*): ")


def prove(prop, tier):
    """run every unit of the property; list of Outcome"""
    todo = [u for u in UNITS if prop in u.props and (tier == "thorough" or u.tier == "quick")]
    outs = []
    groups = {}
    # the Verus files are verified beside the Kani units
    vtodo = [u for u in VUNITS if prop in u.props]
    proofs = {}

    def one(f, vac):
        try:
            proofs[f, vac] = verus.verify(f, vac)
        except Exception as e:
            p = verus.Proof()
            p.note = "internal: %r" % e
            proofs[f, vac] = p
    ths = [threading.Thread(target=one, args=(f, v)) for f in sorted({u.file for u in vtodo}) for v in (False, True)]
    for t in ths:
        t.start()
    for u in todo:
        groups.setdefault((u.package,), []).append(u)
    for (pkg,), us in groups.items():
        try:
            res, note, wall, cmd = kani.run(pkg, [u.harness for u in us], max(u.timeout for u in us) * (1 if tier == "quick" else 6), each=240 if tier == "quick" else 900)
        except kani.Lost as e:
            res, note, wall, cmd = {}, str(e), 0.0, ""
        for u in us:
            o = judge(u, prop, res.get(u.harness), note, cmd)
            if o.status == "proved" and kani.kept(pkg):
                o.status, o.note = "undecided", "it holds of a first call: the code keeps state from one call to the next in " + ", ".join(kani.kept(pkg))
            outs.append(o)
    for t in ths:
        t.join()
    seen = set()
    for u in vtodo:
        outs.append(judge_verus(u, proofs[u.file, False], proofs[u.file, True], u.file not in seen))
        seen.add(u.file)
    return outs


def plain(text):
    """Is the body made of nothing but comparisons, branches and calls with a contract that says everything about them?
    Only then does a rejected obligation show that the function is wrong: of loops, closures, bits, and much of std the
    verifier knows less than what is true."""
    body = text.partition("\n{\n")[2]
    if not body or re.search(r"\b(for|while|loop|const|static|fn|unsafe)\b|\[|\^|<<|>>|[%*/+]|[\w)] [&|-] |[(,={] (move )?\|\|? |! \(? ?\d|- \d", body):
        return False
    known = {u.path[len(SP):] for u in VUNITS if u.file == "session" and u.path.startswith(SP)} | {"is_some", "is_none", "as_ref", "eq", "ne", "max_value"}
    return all(m in known or m in ("if", "match", "return", "else", "Some") for m in re.findall(r"\b(\w+) \(", body))


def judge_verus(u, p, vac, first):
    o = Outcome(u.name, "undecided", p.note, "", p.cmd if first else "", "Verus 0.2026.09.13 / Z3")
    if first:
        o.seconds = p.seconds + vac.seconds
    if p.verified is None:
        return o
    o.total = 1
    if u.path in p.aside:
        o.note = p.aside[u.path]
        return o
    bad = p.of.get(u.path, [])
    if bad and u.refutes and plain(p.lines_of(u.path)) and any("postcondition not satisfied" in m for m, _ in bad):
        o.status = "failed"
        o.failures = ["%s: %s" % (u.name, " ".join(t.split())[:300]) for m, t in bad]
        o.output = "\n".join(t for _, t in bad)
    elif bad:
        o.note = "not proved: " + "; ".join(m for m, _ in bad)
    elif p.elsewhere:
        o.note = "not proved: " + "; ".join(p.elsewhere)
    elif p.errors and not p.of:
        o.note = "not proved"
    elif not any(f[0] == u.path for f in p.fns):
        o.note = "not extracted"
    elif [f for f in vac.fns if f[0] == u.path and f[3]] and not any("assertion failed" in m for m, _ in vac.of.get(u.path, [])):
        # an assertion of false at its end must be rejected
        o.note = "its end was not shown to be reachable " + vac.note
    else:
        # what it relies on from the same file must hold too
        o.passed, o.status = 1, "proved"
        o.covers = 1
    return o


def judge(u, prop, r, note, cmd):
    o = Outcome(u.name, "undecided", note, u.bounded, cmd)
    if r is None:
        o.note = note or "no result"
        return o
    o.seconds = float(str(r.get("duration_ms", 0))) / 1000.0
    odd = []
    lines = []
    for c in r.get("checks", []):
        d, st, cat = c.get("description", ""), c.get("status", "").upper(), c.get("category", "")
        loc = c.get("location") or {}
        where = "%s:%s" % (str(loc.get("file", "?")).split("/kani/")[-1], loc.get("line", "?"))
        if cat == "cover":
            if st == "SATISFIED":
                o.covers += 1
            else:
                odd.append("cover not satisfied: " + d)
            continue
        m = LABEL.match(d.strip('"'))
        ids = m.group(1).split(",") if m else None
        if ids == ["model"]:
            if st != "SUCCESS" and st != "UNREACHABLE":
                odd.append("outside the model: %s (%s)" % (d, where))
            continue
        if ids is None:
            if cat == "safety_check":
                # the memory of this unsafe code isn't among the obligations
                continue
            if u.panics and cat == "assertion":
                continue
            # a look into memory that the contracts leave opaque
            if "<builtin-library" in where:
                if st != "SUCCESS" and st != "UNREACHABLE":
                    odd.append("outside the model: %s (%s)" % (d, where))
                continue
            # reachability of something the verifier cannot treat, or a loop bound
            if cat in ("unwind", "unsupported_construct") or "unwinding assertion" in d or "is not currently supported" in d:
                if st == "FAILURE":
                    odd.append("%s (%s)" % (d, where))
                continue
            ids = list(u.props)
        if prop not in ids:
            continue
        o.total += 1
        if st in ("SUCCESS", "UNREACHABLE"):
            o.passed += 1
        elif st == "FAILURE":
            o.failures.append("%s: %s (%s)" % (u.harness, d, where))
        else:
            odd.append("%s: %s (%s)" % (st, d, where))
        if st != "SUCCESS" and len(lines) < 60:
            lines.append("%s %s %s %s" % (st, cat, d, where))
    o.output = "\n".join(lines)
    if o.failures:
        # a failure found within unwound loops is a failure
        o.status = "failed"
    elif odd:
        o.note = "; ".join(odd[:5])
    elif o.total == 0:
        o.note = "no obligation was generated"
    elif o.covers < u.covers:
        o.note = "only %d of %d reachability covers" % (o.covers, u.covers)
    else:
        o.status = "proved"
    return o


def functions(prop):
    return sorted({f for u in UNITS + VUNITS if prop in u.props for f in u.functions})


KTRUST = [
    "kani 0.68.0 and CBMC 6.11 with its SAT back end; rustc's MIR",
    "extraction for Kani: paths that start at `std` start at the contract crate `mstd` instead, nothing else changes (vlib/extract.py)",
    "contracts of the environment (kani/mstd, kani/libc): libc calls, UnixListener/UnixStream, File, fs::metadata/remove_file; HashMap and HashSet as lists of distinct keys; catch_unwind as a nondeterministic panic; logging (slog) dropped",
]
VTRUST = [
    "Verus 0.2026.09.13 with Z3 and vstd",
    "extraction for Verus (vlib/verus.py): the function's tokens, with the textual replacements that verus/*.rs lists (types, method names, macros), logging and debug assertions dropped",
]


def trusted(prop):
    o = []
    if any(prop in u.props for u in UNITS):
        o += KTRUST
    fs = sorted({u.file for u in VUNITS if prop in u.props})
    if fs:
        o += VTRUST
        a = sorted({x for f in fs for x in verus.assumed(f)})
        o.append("contracts assumed by Verus (external_body): " + "; ".join(a))
    return o


def assumptions(prop):
    o = trusted(prop)[1:]
    if any(prop in u.props for u in UNITS):
        o += ["memory safety and integer overflow of std and of this unsafe code are not among the obligations of Kani units", "termination is not among the obligations of Kani units"]
    return o


def warmup():
    """one harness per package, so that the dependencies are compiled"""
    seen = {}
    for u in UNITS:
        seen.setdefault(u.package, [u.harness])
    return list(seen.items())


TECH = {}


def technique(prop):
    k, v = any(prop in u.props for u in UNITS), any(prop in u.props for u in VUNITS)
    b = "Verus/Z3 (unbounded) and Kani/CBMC" if k and v else "Verus/Z3" if v else "Kani/CBMC"
    return "contracts on the extracted real code discharged function by function by %s; counterexamples searched on and replayed against the real shared object" % b


def note(prop):
    k = sorted({f for u in UNITS if prop in u.props and not u.bounded for f in u.functions})
    v = sorted({f for u in VUNITS if prop in u.props for f in u.functions})
    b = [u for u in UNITS if prop in u.props and u.bounded]
    t = ""
    if v:
        t += "Verus, for all inputs: %s. " % ", ".join(v)
    if k:
        t += "Kani, for all inputs: %s. " % ", ".join(k)
    if b:
        t += "Bounded (run beside, not counted as proved): " + "; ".join("%s (%s)" % (u.name, u.bounded) for u in b) + ". "
    return t + "Trusted: the environment contracts (kani/mstd, kani/libc, external_body in verus/), the extraction, the verifiers."
