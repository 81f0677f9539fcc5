"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
SP, SK, TP = "sudo_pair/src/lib.rs", "sudo_pair/src/socket.rs", "sudo_pair/src/template.rs"
CORE, ENV, ST = "sudo_plugin/src/core.rs", "sudo_plugin/src/plugin/io_env.rs", "sudo_plugin/src/plugin/io_state.rs"
OM, TR = "sudo_plugin/src/options/option_map.rs", "sudo_plugin/src/options/traits.rs"
CI, UI, SE = "sudo_plugin/src/options/command_info.rs", "sudo_plugin/src/options/user_info.rs", "sudo_plugin/src/options/settings.rs"
PF, TTY = "sudo_plugin/src/output/print_facility.rs", "sudo_plugin/src/output/tty.rs"
VER, SYS, MAC, ERR = "sudo_plugin/src/version.rs", "sudo_plugin-sys/src/lib.rs", "sudo_plugin/src/macros.rs", "sudo_pair/src/errors.rs"


def p(id, title, statement, over, text, why, files, mech, obs):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=obs, hook_needed=None)))


p("C01", "A session starts only after the pair saw the prompt and answered y",
  "When a session needs a pair, the plugin lets it start only if a peer connected to the session's socket, the complete pair prompt was delivered to that peer, and the first byte the peer then sent is 'y' or 'Y'. "
  "Every other history (no connection, interrupted or failed wait, short or failed prompt delivery, any other first byte, end of file, a failed read) makes the plugin refuse the session. "
  "The answer byte and a newline are echoed to the peer, and whether that echo succeeds does not matter.",
  ["inputs", "fault_sequences"], "every answer byte, every split of the answer into reads, and every system-call failure between creating the socket and reading the answer",
  "No existing test opens a session: the gate needs a socket, a peer and failures at chosen calls.",
  [SP, SK], [("SudoPair::open, remote_pair_connect, remote_pair_prompt", SP), ("Socket::open / read / write", SK)],
  ["return value of the plugin's open entry point", "bytes sent to and read from the connected peer"])

p("C02", "Exactly the documented sessions are exempt from pairing",
  "A session is exempt exactly when the invoking uid equals sudo's effective uid, or neither the uid nor the primary gid would change, or the command is the configured approval binary, or the policy asks for no tty, stdout or stderr logging at all, or one of the invoking user's groups is in the configured exempted gids, or none of the groups the command would have is in the configured enforced gids (root's gid 0 when not configured). "
  "Every other session needs a pair, and an exempt session starts without one. "
  "The groups the command would have are the run-as groups given by the policy (the user's own groups when it gives none) together with the run-as primary gid.",
  ["inputs", "configurations"], "all uids, gids, group lists, command paths, logging hints and plugin options",
  "No existing test evaluates the exemption rules; they are a Boolean function of a dozen inputs with set membership.",
  [SP, ENV], [("SudoPair::is_exempt and its predicates", SP), ("IoEnv::runas_gids", ENV), ("PluginOptions::from", SP)],
  ["whether open waits for a peer", "whether piped stdin is refused"])

p("C03", "Changing the user together with an explicit group is always refused",
  "A session that needs a pair and both changes the uid and names an explicit group is refused. "
  "The refusal happens before any prompt is printed and before anything is created or removed in the socket directory.",
  ["inputs"], "all identities and group options for which the session is not exempt",
  "No existing test opens a session with both options.",
  [SP], [("SudoPair::is_sudoing_to_user_and_group", SP)], ["return value of open", "system calls made before it returns"])

p("C04", "Only the target user or group may connect to the session's socket",
  "While a peer is awaited, the session's socket is owned by the target user with write permission for its owner only when the uid changes, and otherwise keeps its owner (sudo's effective user) and is given the target group with write permission for the group only. "
  "No other owner, group or permission bit is ever set on it.",
  ["inputs"], "all target uids and gids, with and without an explicit group",
  "No existing test creates a socket; ownership changes need root and a non-exempt session.",
  [SP, SK], [("SudoPair::socket_uid, socket_gid, socket_mode", SP), ("Socket::open", SK)], ["arguments of chown and chmod on the socket", "mode and owner of the socket when poll or accept is entered"])

p("C05", "The socket is never reachable before its owner and mode are final",
  "The socket is created with no permission bits for anybody, its owner is set before any permission is granted, and a peer is waited for only after owner and mode were both set successfully. "
  "If creating the socket, setting its owner or mode, or accepting fails, or waiting fails or is interrupted, the session is refused. "
  "The process' file mode creation mask is back to its earlier value when the attempt ends, however it ends.",
  ["fault_sequences", "inputs"], "every failure (any error code, Ctrl-C included) at every step of creating the socket and waiting on it, and every initial mask",
  "Needs faults injected at single system calls; the tests make none of these calls.",
  [SK], [("Socket::open", SK)], ["order, arguments and results of umask, bind, chown, chmod, poll and accept"])

p("C06", "An unsafe socket directory is refused",
  "A pair session is refused, with nothing created or removed, unless the socket's parent path can be examined, is a directory, is owned by sudo's effective user, and is writable by neither its group nor others.",
  ["inputs", "configurations"], "every file type, owner and permission mask of the directory",
  "The tests never look at a socket directory; the space is all mode words and owners.",
  [SK], [("Socket::enforce_ownership", SK)], ["return value of open", "absence of bind and unlink calls"])

p("C07", "The socket has the documented name and is always cleaned up",
  "The session's socket lies in the configured directory (default /var/run/sudo_pair) under the name <uid>.<pid>.sock made of the invoking user's uid and sudo's pid. "
  "A stale socket at that path is replaced, anything else there is left alone and the session is refused, and no other path is ever removed. "
  "Once a peer was accepted or the attempt failed, the socket created at that path is removed again.",
  ["inputs", "fault_sequences"], "every uid, pid and directory, whatever already lies at the path, and every failure while the socket exists",
  "No test creates sockets or pre-existing files at the path.",
  [SP, SK], [("SudoPair::socket_path", SP), ("Socket::open, Socket::unlink", SK)], ["paths passed to stat, bind, chown, chmod and unlink"])

p("C08", "Session output is shown to the pair in full before it is accepted",
  "In a paired session every chunk of terminal, stdout and stderr output is written to the pair completely, unchanged and in order before the plugin reports success for it, and a window size change is sent as ESC [ 8 ; rows ; columns t. "
  "If the pair can no longer be written to, the plugin reports a denial, so that sudo ends the session.",
  ["inputs", "fault_sequences", "histories"], "every sequence of output events of any content and length, every short write, interruption or failure of the connection",
  "Needs an open session and a scripted connection; the tests have neither.",
  [SP, SK, CORE], [("SudoPair::log_output, log_ttyout, log_stdout, log_stderr, change_winsize", SP), ("Write for Socket", SK)], ["bytes written to the peer", "return values of the log entry points"])

p("C09", "Exempt sessions are left alone",
  "A session that needs no pair starts without printing a prompt, without touching the socket directory and without waiting for anyone. "
  "All of its output, terminal input, piped stdin and window size changes are then accepted, and closing it succeeds.",
  ["inputs", "histories"], "every exempt session and every sequence of events in it",
  "No test opens a session.",
  [SP], [("SudoPair::open, log_output, log_stdin", SP)], ["return values of all entry points", "system calls made"])

p("C10", "Piped standard input is refused in every paired session",
  "In a session that was approved by a pair, any data arriving on a redirected standard input makes the plugin report a denial, whichever streams the policy has asked to be logged. "
  "Input typed at the terminal is accepted.",
  ["inputs", "configurations"], "all logging hints of the policy and all contents",
  "Depends on the logging hints handed in by sudo, which no test varies.",
  [SP, CORE], [("SudoPair::log_stdin, IGNORE_IOLOG_HINTS", SP), ("log_stdin entry point", CORE)], ["return value of log_stdin after an approved open"])

p("C11", "Ending the session disconnects the pair",
  "When a paired session is closed, and also when opening it fails after a peer connected, the connection to the pair is shut down in both directions and released. "
  "Failures while doing so are ignored and do not reach sudo.",
  ["histories", "fault_sequences"], "every way in which a session with a connected peer can end",
  "No test opens or closes a session.",
  [SP, SK], [("SudoPair::close", SP), ("Drop for Socket", SK)], ["shutdown and close calls on the connection"])

p("C12", "Both prompts are built from the right template and session data",
  "The user's prompt and the pair's prompt are each the configured template file's content, or the documented default when that file cannot be read completely, expanded with the documented variables: approval binary name and path, invocation, working directory of the command, host, terminal height and width, and the invoking user's gid, uid, name and sudo's pid. "
  "The user's prompt is written in full to the user's terminal, or to sudo's error channel when there is no usable terminal, before a peer is waited for, and a failure to print it does not stop the session.",
  ["inputs", "fault_sequences", "configurations"], "every template, every value of the variables, every failure to open, read or write the files and the terminal",
  "The tests cover only the expansion function on a few literals, never its inputs or where the result goes.",
  [SP, TP, ENV, TTY], [("SudoPair::template_spec, local_pair_prompt, remote_pair_prompt", SP), ("IoEnv::tty, cwd, invocation", ENV)], ["bytes written to the terminal, the error channel and the peer"])

p("C13", "Template expansion replaces exactly the known escapes",
  "Expanding a template yields, from left to right, each byte that is not an escape byte unchanged, and for each escape byte followed by a byte the replacement of that byte if one is defined and the byte itself otherwise; replacements are inserted verbatim and not expanded again. "
  "A lone escape byte at the very end is dropped. Expansion never fails.",
  ["inputs"], "all templates (any bytes, any length), escape bytes and replacement tables",
  "The unit tests sample a dozen literal templates.",
  [TP], [("Spec::expand, Spec::replace", TP)], ["result of expanding a template; the prompts"])

p("C14", "Ctrl-C interrupts a wait for the pair and handlers are restored",
  "An interrupt while the plugin waits for a peer to connect ends the attempt, and the session is refused. While the plugin reads from or writes to the pair, an interrupt signal aborts the system call instead of restarting it, with the interrupt handler and its other flags otherwise unchanged. "
  "The earlier disposition is back in place after each such call whether it succeeded or failed, and a failure to change the disposition is reported as an error without the other data being touched.",
  ["inputs", "fault_sequences"], "every initial handler and flag set, every result of the call in between, a failure at each change of the handler, a signal at each wait",
  "Needs interposed signal calls; no test reaches this code.",
  [SK], [("ctrl_c_aborts_syscalls, sigaction", SK), ("Read and Write for Socket", SK)], ["signal disposition while read and write are in progress, and afterwards"])

p("C15", "A panic never escapes to sudo and always denies",
  "Whatever panic happens inside the plugin during any callback, the callback returns to sudo normally. "
  "A panic while opening or logging makes that callback report the denying status (-1 for open, 0 for logging).",
  ["inputs", "histories"], "a panic raised in any plugin callback, in any order of callbacks",
  "No test raises a panic across the boundary.",
  [CORE], [("catch_unwind_open, catch_unwind_log and the entry points", CORE)], ["return value of each entry point; survival of the calling process"])

p("C16", "Results and errors map to the status codes sudo expects",
  "An entry point reports 1 exactly when the plugin's callback succeeded (or, for a logging callback, was not asked). "
  "An error from the plugin is reported as the status that its error type chooses, unchanged, and the built-in errors always choose denial: -1 for open and 0 for logging; the error is also printed on sudo's error channel.",
  ["inputs"], "every callback and every result or error it can return",
  "No test calls an entry point.",
  [CORE, "sudo_plugin/src/errors.rs", ERR], [("OpenStatus, LogStatus and their conversions", CORE)], ["return values of the entry points", "text printed on the error channel"])

p("C17", "Plugin life cycle is well ordered for every sequence of callbacks",
  "The plugin's open callback runs at most once per session, only for a supported and well-formed environment and only when sudo is about to run a command; without a command (sudo -V) opening succeeds without it. "
  "Logging callbacks reach the plugin only after a successful open and before close, and are otherwise denied without effect. "
  "Close reaches an opened plugin exactly once with sudo's exit status and error, and the plugin is gone before the environment it may refer to; after a close that did not panic, a new session starts from the new environment. "
  "Asking for the version (sudo -V) reaches the plugin once, with the session's environment and with the verbosity that sudo asked for, whether or not the plugin is open, and changes nothing; a plugin that brings no version text of its own has its name and version printed on sudo's standard output.",
  ["histories"], "every finite sequence of entry-point calls with every outcome of open",
  "A property of call histories; the tests make no calls.",
  [CORE, ST], [("open, close and log entry points", CORE), ("IoState::init, drop, io_plugin, io_env", ST)], ["callbacks received by a plugin", "return values of the entry points"])

p("C18", "Logging hints filter exactly the stream they name",
  "Unless a plugin declares that it ignores the policy's logging hints, each of the five data streams (terminal input and output, stdin, stdout, stderr) reaches the plugin exactly when the policy asked for that stream to be logged, and data the plugin is not given is accepted. "
  "A plugin that ignores the hints receives every stream, window size changes are always delivered, and data is delivered byte for byte. A callback that a plugin leaves out accepts everything.",
  ["inputs", "configurations"], "all combinations of hints, streams, data of any length, and both kinds of plugin",
  "No test calls a logging entry point.",
  [CORE, "sudo_plugin/src/plugin/io_plugin.rs"], [("log_ttyin, log_ttyout, log_stdin, log_stdout, log_stderr, change_winsize", CORE)], ["callbacks received by a plugin and their data"])

p("C19", "API versions encode faithfully and old sudo is refused",
  "A version word splits into its upper and lower 16 bits as major and minor number, joining them gives the word back, and versions compare first by major and then by minor. "
  "Opening with a version before 1.9 is refused with a message naming both versions and without the plugin being opened; every version from 1.9 on is accepted.",
  ["inputs"], "all 2^32 version words",
  "Doc tests check three constants of the helpers; the gate is untested.",
  [VER, SYS, ENV], [("Version::from_ffi, into_ffi, check", VER), ("sudo_api_mkversion and the getters", SYS)], ["result of open for a version word", "public version helpers"])

p("C20", "Raw option lists are parsed losslessly",
  "A null list is an empty option map; otherwise each entry before the terminating null is split at its first '=' into name and value, an entry without '=' has its own text as value, the last entry with a name wins, and arbitrary non-UTF-8 bytes are kept. "
  "Exactly the names given are present, and nothing past the terminating null is read.",
  ["inputs"], "all lists of NUL-terminated byte strings",
  "The unit tests check about eight literal lists.",
  [OM], [("OptionMap::from_raw, get_bytes, get_str", OM)], ["public lookup functions of the option map"])

p("C21", "Typed option access is total and exact",
  "Reading an option as a type yields the value exactly when the text is the standard decimal (or true/false) spelling in range for that type, any text for strings and paths, and for lists the separated items in order when every item parses. "
  "A missing or non-UTF-8 option is reported as missing, anything else as invalid naming the key and the value, and no text whatsoever makes the access panic.",
  ["inputs"], "all option texts for every supported type, network address lists included",
  "Unit tests try a handful of texts; the panicking one is not among them.",
  [OM, TR, SE], [("OptionMap::get", OM), ("FromSudoOption implementations", TR), ("NetAddr::from_sudo_option", SE)], ["result of typed option access"])

p("C22", "sudo's settings, user and command records are decoded field by field",
  "Every field of the three records has exactly the value sudo passed under that field's documented name, or its documented default (absent for optional fields) when sudo passed none or an unusable one; file modes are octal, and the paths of the command and of its working directory are taken byte for byte whatever their encoding. "
  "Opening is refused when a required field (plugin directory, plugin path, program name; working directory, uid, euid, gid, egid, groups, host, user, pid, parent pid, process group) is missing or unusable, and effective run-as ids default to the real run-as ids and those to the process' own effective ids.",
  ["inputs"], "all contents of the settings, user_info and command_info lists",
  "No test decodes a record; there are about eighty fields.",
  [CI, UI, SE], [("TryFrom<OptionMap> for CommandInfo, UserInfo, Settings", "sudo_plugin/src/options/")], ["public fields of the environment handed to the plugin", "return value of open"])

p("C23", "The invocation shown is the program, its flags and its arguments",
  "The reconstructed invocation is the program name, then the long form of each sudo option that was given in a fixed order with its value, then each argument of the command line byte for byte, all separated by single spaces. "
  "No option that was not given appears, and an edit flag is left out when the program is already sudoedit.",
  ["inputs"], "all combinations of options and values, and all argument vectors",
  "No test builds an invocation.",
  [ENV, SE], [("IoEnv::invocation", ENV), ("Settings::flags", SE)], ["result of the invocation accessor; the %C expansion in the pair prompt"])

p("C24", "The run-as group set is complete and exact",
  "The set of groups a command will have consists of the run-as groups passed by sudo, or the invoking user's groups when none were passed, plus the effective run-as primary group, and nothing else. "
  "Duplicates and order do not matter, and computing it does not change the environment.",
  ["inputs"], "all group lists of any length and any primary group",
  "No test computes the set.",
  [ENV], [("IoEnv::runas_gids", ENV)], ["result of the group set accessor"])

p("C25", "Text printed through sudo appears verbatim",
  "Text that the plugin prints through sudo's message function appears exactly as given, whatever bytes it contains (percent signs included), on the channel asked for, with lines prefixed by the plugin's name. "
  "Text with an embedded NUL is rejected with an error instead of being cut, a missing or failing message function is reported as an error, and nothing in the text makes the plugin panic or read other memory.",
  ["inputs", "fault_sequences"], "all texts, both channels, present, absent and failing message functions",
  "No test prints anything through the message function.",
  [PF], [("PrintFacility::write, write_line, new", PF)], ["arguments of the message function and the text it renders"])

p("C26", "Error reports terminate and show the whole cause chain",
  "Reporting an error to the user prints the error and then each of its causes once, outermost first, each on its own prefixed line, and then stops. "
  "This holds for every finite chain of causes.",
  ["inputs"], "all errors with cause chains of any finite length",
  "No test reports an error; a chain needs a custom error type.",
  [PF, CORE], [("PrintFacility::write_error", PF)], ["text printed on the error channel when a callback fails"])

p("C27", "Plugin tables have the layout and callbacks sudo expects",
  "The exported plugin table is laid out as in sudo's C header, declares itself an I/O plugin of the supported API version, provides every implemented callback and leaves every other slot empty. "
  "The empty tables for each plugin kind carry the right kind and version and no callbacks.",
  ["programs", "inputs"], "every plugin defined with the macro, each slot of each table",
  "Generated layout tests compare offsets with constants only and are not among the stable tests; no test looks at the exported table.",
  [SYS, MAC], [("sudo_io_plugin!", MAC), ("io_plugin::empty and the other tables", SYS)], ["bytes of the exported table read through the C header"])

p("C28", "The deny-everything example denies everything",
  "The example approval plugin answers every check with a denial whatever command, arguments and environment it is given and whether or not it was opened with a message function. "
  "It sets the error string only for callers whose API version (1.17 and later) has one, and prints only constant text.",
  ["inputs", "histories"], "all version words, presence of the message function, and orders of open, check and show_version",
  "The example has no tests.",
  ["examples/raw_plugin_api/src/lib.rs"], [("open, check, show_version", "examples/raw_plugin_api/src/lib.rs")], ["return values and error string"])

p("C29", "The sample approval script refuses self-approval",
  "The sample approval script never connects to the socket of a session that was requested by the user who is running the script.",
  ["inputs"], "all uids, socket owners and modes",
  "It is a shell script without tests.",
  ["sample/bin/sudo_approve"], [("uid comparison in main", "sample/bin/sudo_approve")], ["processes the script starts"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
