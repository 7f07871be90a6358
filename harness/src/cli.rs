//! Drives the command line application through its prompts.

use crate::engine::*;
use crate::model::*;
use crate::refimpl::{self, Raw, Writer};
use crate::{ensure, viol};
use std::io::{Read, Write};
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const P_NEW: &str = "New primary password: ";
pub const P_REPEAT: &str = "Repeat primary password: ";
pub const P_PRIMARY: &str = "Your primary password: ";
pub const P_STORED: &str = "Password to be stored: ";
pub const P_NOTES: &str = "Please enter new notes to be stored:";
pub const P_CODE: &str = "Next line of your recovery code (empty line to abort): ";
pub const P_OVERWRITE: &str = "A password with this domain/name/revision combination already exists. Overwrite? (y/N) ";
pub const P_RESET: &str = "Changing primary password will remove all existing data. Continue? (y/N) ";
pub const P_SHELL: &str = "pfp> ";
pub const P_EXTRA_TAIL: &str = "Ignore the extra data and decode the recovery code? (Y/n) ";
pub const P_WAIT: &str = "\nWaiting...\n";
const PROMPTS: [&str; 11] = [
    P_NEW, P_REPEAT, P_PRIMARY, P_STORED, P_NOTES, P_CODE, P_OVERWRITE, P_RESET, P_SHELL, P_EXTRA_TAIL, P_WAIT,
];

pub const GREETING: &str = "Enter a command or type 'help' for a list of commands. Enter 'help <command>' for detailed information on a command.\n";

pub const TIMEOUT: u64 = 120;

#[derive(Default, Clone)]
pub struct Opts {
    /// Limit for the size of files written
    pub fsize: Option<u64>,
    pub env: Vec<(String, String)>,
    /// Runs as this unprivileged user
    pub uid: Option<u32>,
    pub bin: Option<PathBuf>,
    pub cwd: Option<PathBuf>,
    /// Runs on a terminal, type TERM
    pub tty: Option<&'static str>,
    pub umask: Option<u32>,
    pub ignore_hup: bool,
    /// Output goes to this file
    pub output: Option<PathBuf>,
}

/// Stands for a byte that isn't valid UTF-8 in arguments
pub const BAD_BYTE: char = '\u{f8ff}';

pub fn os(arg: &str) -> OsString {
    let mut bytes = Vec::new();
    for c in arg.chars() {
        if c == BAD_BYTE {
            bytes.push(0xff);
        } else {
            bytes.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    OsString::from_vec(bytes)
}

pub struct Proc {
    pub child: Child,
    stdin: Option<File>,
    out: File,
    buf: Vec<u8>,
    pub what: String,
    pub tty: Option<Tty>,
    last: Option<&'static str>,
}

/// The terminal an application runs on
pub struct Tty {
    slave: File,
    initial: libc::termios,
    /// Should be displayed for the input sent last
    echo: Vec<Part>,
    /// Input at the shell prompt can be edited, the terminal understands control sequences
    editing: bool,
}

/// The shell prompt if input can be edited
const EDIT_PROMPT: &[u8] = b"\x1b[?2004h\r\x1b[0Kpfp> \r\x1b[5C";

/// Removes control sequences.
fn plain(raw: &[u8]) -> Vec<u8> {
    let mut result = Vec::with_capacity(raw.len());
    let mut i = 0;
    while i < raw.len() {
        match raw[i] {
            b'\r' => i += 1,
            0x1b if raw.get(i + 1) == Some(&b'[') => {
                i += 2;
                while i < raw.len() && !(0x40..=0x7e).contains(&raw[i]) {
                    i += 1;
                }
                i += 1;
            }
            b => {
                result.push(b);
                i += 1;
            }
        }
    }
    result
}

fn settings(fd: &File) -> R<libc::termios> {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(fd.as_raw_fd(), &mut t) != 0 {
            return Err(Fail::Infra("terminal settings".to_owned()));
        }
        Ok(t)
    }
}

impl Tty {
    fn open(editing: bool) -> R<(Self, File)> {
        let (mut master, mut slave) = (0, 0);
        unsafe {
            let size = libc::winsize { ws_row: 50, ws_col: 4000, ws_xpixel: 0, ws_ypixel: 0 };
            if libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), std::ptr::null(), &size) != 0 {
                return Err(Fail::Infra(format!("openpty: {}", std::io::Error::last_os_error())));
            }
            libc::fcntl(master, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(slave, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        let (master, slave) = unsafe { (File::from_raw_fd(master), File::from_raw_fd(slave)) };
        let initial = settings(&slave)?;
        Ok((Self { slave, initial, echo: Vec::new(), editing }, master))
    }

    /// Waits for input to be displayed or hidden.
    pub fn wait_echo(&self, on: bool, what: &str) -> R {
        let start = Instant::now();
        loop {
            let t = settings(&self.slave)?;
            if (t.c_lflag & libc::ECHO != 0) == on {
                return Ok(());
            }
            if start.elapsed() > Duration::from_secs(20) {
                viol!("{}: the terminal {} what is typed", what, if on { "does not display" } else { "displays" });
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    pub fn check_restored(&self, what: &str) -> R {
        let t = settings(&self.slave)?;
        let i = &self.initial;
        let values = |t: &libc::termios| (t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc.to_vec());
        ensure!(values(&t) == values(i), "{}: terminal settings are different afterwards: {:?} instead of {:?}", what, values(&t), values(i));
        Ok(())
    }
}

pub const SECRET_PROMPTS: [&str; 4] = [P_NEW, P_REPEAT, P_PRIMARY, P_STORED];

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Prompt(&'static str),
    /// Exit code, negative signal number
    Exit(i32),
}

impl Proc {
    pub fn spawn(bin: &Path, args: &[String], home: &Path, opts: &Opts) -> R<Self> {
        let (tty, out, input, writer) = if opts.tty.is_some() {
            let (tty, master) = Tty::open(opts.tty != Some("dumb"))?;
            let input = tty.slave.try_clone().map_err(infra("terminal"))?;
            let writer = tty.slave.try_clone().map_err(infra("terminal"))?;
            (Some(tty), master, Stdio::from(input), writer)
        } else {
            let (out, writer) = std::io::pipe().map_err(infra("pipe"))?;
            (None, File::from(OwnedFd::from(out)), Stdio::piped(), File::from(OwnedFd::from(writer)))
        };
        let writer = match &opts.output {
            Some(path) => File::options().create(true).append(true).open(path).map_err(infra("output"))?,
            None => writer,
        };
        let err_writer = writer.try_clone().map_err(infra("pipe"))?;
        let mut cmd = Command::new(opts.bin.as_deref().unwrap_or(bin));
        cmd.args(args.iter().map(|a| os(a)))
            .env_clear()
            .env("HOME", home)
            .env("TERM", opts.tty.unwrap_or("dumb"))
            .env("PATH", "/usr/bin:/bin")
            .env("RUST_BACKTRACE", "0")
            .envs(opts.env.iter().map(|(k, v)| (k, v)))
            .stdin(input)
            .stdout(writer)
            .stderr(err_writer)
            .current_dir(opts.cwd.as_deref().unwrap_or(home));
        if let Some(uid) = opts.uid {
            cmd.uid(uid).gid(uid);
        }
        let fsize = opts.fsize;
        let umask = opts.umask;
        let ignore_hup = opts.ignore_hup;
        let on_tty = opts.tty.is_some();
        unsafe {
            cmd.pre_exec(move || {
                if on_tty {
                    libc::setsid();
                    if libc::ioctl(0, libc::TIOCSCTTY, 0) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                if ignore_hup {
                    libc::signal(libc::SIGHUP, libc::SIG_IGN);
                }
                if let Some(umask) = umask {
                    libc::umask(umask);
                }
                // No core dumps
                let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &none);
                if let Some(limit) = fsize {
                    let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                }
                Ok(())
            });
        }
        let mut child = cmd.spawn().map_err(infra("starting the application"))?;
        drop(cmd);
        let stdin = match &tty {
            Some(_) => Some(out.try_clone().map_err(infra("terminal"))?),
            None => child.stdin.take().map(|s| File::from(OwnedFd::from(s))),
        };
        Ok(Self {
            child,
            stdin,
            out,
            buf: Vec::new(),
            what: format!("{:?}", args),
            tty,
            last: None,
        })
    }

    /// Reads output until the application waits for input or ends.
    pub fn next(&mut self) -> R<(Vec<u8>, Stop)> {
        let (mut bytes, stop) = self.next_raw()?;
        if self.tty.is_some() {
            bytes = plain(&bytes);
        }
        self.last = match stop {
            Stop::Prompt(p) => Some(p),
            _ => None,
        };
        Ok((bytes, stop))
    }

    fn editing(&self) -> bool {
        self.tty.as_ref().is_some_and(|t| t.editing)
    }

    fn next_raw(&mut self) -> R<(Vec<u8>, Stop)> {
        let start = Instant::now();
        loop {
            for p in PROMPTS {
                let marker = if p == P_SHELL && self.editing() { EDIT_PROMPT } else { p.as_bytes() };
                if self.buf.ends_with(marker) {
                    return Ok((std::mem::take(&mut self.buf), Stop::Prompt(p)));
                }
            }
            let left = Duration::from_secs(TIMEOUT).saturating_sub(start.elapsed());
            let mut fds = libc::pollfd { fd: self.out.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            // On a terminal there is no end of the output
            let ended = self.tty.is_some() && self.child.try_wait().map_err(infra("waiting for the application"))?.is_some();
            let limit = match (&self.tty, ended) {
                (Some(_), true) => 0,
                (Some(_), false) => left.as_millis().min(10) as i32,
                _ => left.as_millis() as i32,
            };
            let n = unsafe { libc::poll(&mut fds, 1, limit) };
            if n < 0 {
                continue;
            }
            if n == 0 && ended {
                let status = self.child.wait().map_err(infra("waiting for the application"))?;
                let code = status.code().unwrap_or_else(|| -status.signal().unwrap_or(1000));
                return Ok((std::mem::take(&mut self.buf), Stop::Exit(code)));
            }
            if n == 0 && !left.is_zero() {
                continue;
            }
            if n == 0 {
                viol!(
                    "{}: neither a known prompt nor an exit within {} seconds, output so far: {:?}",
                    self.what,
                    TIMEOUT,
                    String::from_utf8_lossy(&self.buf)
                );
            }
            let mut chunk = [0u8; 65536];
            let count = self.out.read(&mut chunk).map_err(infra("reading output"))?;
            if count == 0 {
                let status = self.child.wait().map_err(infra("waiting for the application"))?;
                let code = status.code().unwrap_or_else(|| -status.signal().unwrap_or(1000));
                return Ok((std::mem::take(&mut self.buf), Stop::Exit(code)));
            }
            self.buf.extend_from_slice(&chunk[..count]);
        }
    }

    pub fn text(&mut self) -> R<(String, Stop)> {
        let (bytes, stop) = self.next()?;
        match String::from_utf8(bytes) {
            Ok(s) => Ok((s, stop)),
            Err(e) => viol!("{}: output is not UTF-8: {:?}", self.what, String::from_utf8_lossy(e.as_bytes())),
        }
    }

    pub fn send(&mut self, line: &str) -> R {
        let editing = self.editing() && self.last == Some(P_SHELL);
        if let Some(tty) = &mut self.tty {
            let on = settings(&tty.slave)?.c_lflag & libc::ECHO != 0;
            tty.echo = vec![Part::T("\n".to_owned())];
            if editing && (line.len() > 3900 || !line.bytes().all(|b| (0x20..0x7f).contains(&b))) {
                // Might be displayed again for each character
                tty.echo = vec![Part::Line("".to_owned())];
            } else if on || editing {
                let mut text = String::new();
                for c in line.chars() {
                    // This is how control characters are displayed
                    match c {
                        '\u{1}'..='\u{8}' | '\u{b}'..='\u{1f}' => text.extend(['^', (c as u8 + 64) as char]),
                        c => text.push(c),
                    }
                }
                tty.echo.insert(0, Part::T(text));
            }
        }
        self.send_raw(format!("{}{}", line, if editing { '\r' } else { '\n' }).as_bytes())
    }

    /// Keys pressed in the shell
    pub fn keys(&mut self, keys: &str) -> R {
        if let Some(tty) = &mut self.tty {
            tty.echo = vec![Part::Line("".to_owned())];
        }
        self.send_raw(keys.as_bytes())
    }

    pub fn send_raw(&mut self, data: &[u8]) -> R {
        if let Some(stdin) = &mut self.stdin {
            // The application ending early will be noticed when its output is looked at
            let _ = stdin.write_all(data);
            let _ = stdin.flush();
        }
        Ok(())
    }

    pub fn eof(&mut self) {
        let editing = self.editing() && self.last == Some(P_SHELL);
        if let Some(tty) = &mut self.tty {
            tty.echo = if editing { vec![Part::T("\n".to_owned())] } else { Vec::new() };
            let _ = self.send_raw(&[4]);
        } else {
            self.stdin = None;
        }
    }

    /// Everything displayed so far
    pub fn drain(&mut self) -> R<&[u8]> {
        let mut fds = libc::pollfd { fd: self.out.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        while unsafe { libc::poll(&mut fds, 1, 0) } > 0 && fds.revents & libc::POLLIN != 0 {
            let mut chunk = [0u8; 4096];
            let count = self.out.read(&mut chunk).map_err(infra("reading output"))?;
            self.buf.extend_from_slice(&chunk[..count]);
        }
        Ok(&self.buf)
    }

    /// The terminal disappears
    pub fn hang_up(&mut self) {
        self.stdin = None;
        self.tty = None;
        self.out = File::open("/dev/null").expect("/dev/null");
    }

    pub fn take_echo(&mut self) -> Vec<Part> {
        self.tty.as_mut().map(|t| std::mem::take(&mut t.echo)).unwrap_or_default()
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Expected output
#[derive(Debug, Clone, PartialEq)]
pub enum Part {
    T(String),
    /// Indented lines of a recovery code for this password
    Code(String),
    /// Any single line starting with this text
    Line(String),
    /// Either of these
    OneOf(Vec<String>),
    /// Anything at all, not empty
    Any,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ans {
    Line(String),
    Eof,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Out(Part),
    Ask(&'static str, Ans),
}

pub fn t(s: impl Into<String>) -> Ev {
    Ev::Out(Part::T(s.into()))
}

pub fn is_code_line(line: &str) -> bool {
    !line.is_empty()
        && line.bytes().all(|b| refimpl::ALPHABET.contains(&b) || b == b':' || b == b'-')
}

/// Matches output with what is expected, returns whatever is left.
fn match_parts(parts: &[Part], actual: &str, decode: &dyn Fn(&str) -> refimpl::CodeResult) -> Result<(), String> {
    let mut rest = actual;
    let fail = |rest: &str, what: &str| {
        Err(format!(
            "expected {} at position {} of {:?}",
            what,
            actual.len() - rest.len(),
            actual
        ))
    };
    for (i, p) in parts.iter().enumerate() {
        match p {
            Part::T(s) => match rest.strip_prefix(s.as_str()) {
                Some(r) => rest = r,
                None => return fail(rest, &format!("{:?}", s)),
            },
            Part::Line(s) => {
                if !rest.starts_with(s.as_str()) {
                    return fail(rest, &format!("{:?}", s));
                }
                match rest.find('\n') {
                    Some(pos) => rest = &rest[pos + 1..],
                    None => return fail(rest, "a complete line"),
                }
            }
            Part::OneOf(options) => match options.iter().find(|o| rest.starts_with(o.as_str())) {
                Some(o) => rest = &rest[o.len()..],
                None => return fail(rest, &format!("one of {:?}", options)),
            },
            Part::Any => {
                if rest.is_empty() {
                    return fail(rest, "some output");
                }
                // Whatever comes next has to be literal text
                match parts.get(i + 1) {
                    None => rest = "",
                    Some(Part::T(s)) => match rest.rfind(s.as_str()) {
                        Some(pos) if pos > 0 => rest = &rest[pos..],
                        _ => return fail(rest, &format!("something, then {:?}", s)),
                    },
                    _ => return Err("harness: unsupported".to_owned()),
                }
            }
            Part::Code(password) => {
                let rows = refimpl::code_plain_size(password.len()) / 14;
                let mut code = String::new();
                for _ in 0..rows {
                    let line = match rest.find('\n') {
                        Some(pos) => {
                            let line = &rest[..pos];
                            rest = &rest[pos + 1..];
                            line
                        }
                        None => return fail(rest, "another line of the recovery code"),
                    };
                    match line.strip_prefix("        ") {
                        Some(l) if is_code_line(l) => {
                            code.push_str(l);
                            code.push('\n');
                        }
                        _ => return Err(format!("{:?} instead of a line of the recovery code in {:?}", line, actual)),
                    }
                }
                let decoded = decode(&code);
                if decoded != refimpl::CodeResult::Ok(password.clone()) {
                    return Err(format!(
                        "recovery code {:?} decodes to {:?} instead of {:?}",
                        code, decoded, password
                    ));
                }
            }
        }
    }
    if !rest.is_empty() {
        return Err(format!("unexpected {:?} at the end of {:?}", rest, actual));
    }
    Ok(())
}

/// Goes through a dialog, everything the application does has to be as expected. Returns the
/// exit code if the application ended.
pub fn play(proc: &mut Proc, events: &[Ev], end: Stop, primary: &str) -> R<Vec<String>> {
    let decode = |code: &str| refimpl::code_decode(code, |salt| refimpl::derive_key(primary, salt));
    let mut parts: Vec<Part> = Vec::new();
    parts.extend(proc.take_echo());
    let mut outputs = Vec::new();
    for ev in events.iter() {
        match ev {
            Ev::Out(p) => parts.push(p.clone()),
            Ev::Ask(prompt, answer) => {
                let (text, stop) = proc.text()?;
                if stop != Stop::Prompt(prompt) {
                    viol!(
                        "{}: expected the prompt {:?} after {:?}, got {:?} after {:?}",
                        proc.what, prompt, parts, stop, text
                    );
                }
                parts.push(Part::T(prompt.to_string()));
                if let Err(e) = match_parts(&parts, &text, &decode) {
                    viol!("{}: {}", proc.what, e);
                }
                outputs.push(text);
                parts.clear();
                if let Some(tty) = &proc.tty {
                    let hidden = SECRET_PROMPTS.contains(prompt) || (tty.editing && *prompt == P_SHELL);
                    tty.wait_echo(!hidden, &format!("{} at {:?}", proc.what, prompt))?;
                }
                match answer {
                    Ans::Line(l) => proc.send(l)?,
                    Ans::Eof => proc.eof(),
                }
                parts.extend(proc.take_echo());
            }
        }
    }
    let (text, stop) = proc.text()?;
    if stop != end {
        viol!(
            "{}: expected {:?} after {:?}, got {:?} after {:?}",
            proc.what, end, parts, stop, text
        );
    }
    if let Stop::Prompt(p) = end {
        parts.push(Part::T(p.to_string()));
    } else if let Some(tty) = &proc.tty {
        tty.check_restored(&proc.what)?;
    }
    if let Err(e) = match_parts(&parts, &text, &decode) {
        viol!("{}: {}", proc.what, e);
    }
    outputs.push(text);
    Ok(outputs)
}

/// A storage file and where the application runs.
pub struct Env<'a> {
    pub ctx: &'a Ctx,
    pub dir: ScratchDir,
    pub store: PathBuf,
    pub opts: Opts,
    /// Arguments choosing the storage file if not the usual ones
    pub place: Option<Vec<String>>,
    pub history_name: String,
}

impl<'a> Env<'a> {
    pub fn new(ctx: &'a Ctx) -> Self {
        let dir = ctx.dir();
        let _ = std::fs::create_dir_all(dir.join("home"));
        Self {
            ctx,
            store: dir.join("storage.json"),
            dir,
            opts: Opts::default(),
            place: None,
            history_name: "history.txt".to_owned(),
        }
    }

    pub fn args(&self, args: &[String]) -> Vec<String> {
        let mut all = match &self.place {
            Some(place) => place.clone(),
            None => vec!["-c".to_owned(), self.store.to_str().unwrap().to_owned()],
        };
        if self.opts.tty.is_none() {
            all.insert(0, "--stdin-passwords".to_owned());
        }
        all.extend_from_slice(args);
        all
    }

    pub fn start(&self, args: &[String]) -> R<Proc> {
        Proc::spawn(&self.ctx.cli, &self.args(args), &self.dir.join("home"), &self.opts)
    }

    pub fn start_shell(&self) -> R<Proc> {
        self.start(&["shell".to_owned(), "-s".to_owned(), self.history_arg()])
    }

    pub fn history(&self) -> PathBuf {
        PathBuf::from(os(&self.history_arg()))
    }

    /// With BAD_BYTE
    pub fn history_arg(&self) -> String {
        format!("{}/{}", self.dir.0.display(), self.history_name)
    }

    /// One invocation with the dialog expected.
    pub fn run(&self, args: &[String], events: &[Ev], status: i32, primary: &str) -> R<Vec<String>> {
        let mut proc = self.start(args)?;
        play(&mut proc, events, Stop::Exit(status), primary)
    }

    pub fn write(&self, raw: &Raw) -> R {
        std::fs::write(&self.store, refimpl::file_for(raw)).map_err(infra("storage file"))
    }

    pub fn bytes(&self) -> R<Option<Vec<u8>>> {
        match std::fs::read(&self.store) {
            Ok(b) => Ok(Some(b)),
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
            Err(e) => Err(Fail::Infra(format!("storage file: {}", e))),
        }
    }

    pub fn raw(&self) -> R<Raw> {
        match self.bytes()? {
            None => viol!("there is no storage file"),
            Some(b) => match refimpl::parse_file(&b) {
                Ok(raw) => Ok(raw),
                Err(e) => viol!("storage file is not valid: {}", e),
            },
        }
    }

    pub fn decoded(&self, primary: &str) -> R<refimpl::Decoded> {
        let raw = self.raw()?;
        match refimpl::keys(&raw, primary).and_then(|k| refimpl::decode(&raw, &k)) {
            Ok(d) => Ok(d),
            Err(e) => viol!("storage file cannot be decoded: {}", e),
        }
    }

    pub fn check_model(&self, model: &Model) -> R {
        let decoded = self.decoded(&model.primary)?;
        if let Err(e) = refimpl::compare(&decoded, model) {
            viol!("storage file: {}", e);
        }
        Ok(())
    }

    /// Names of everything in the directory of the storage file.
    pub fn files(&self) -> Vec<String> {
        let mut files: Vec<String> = std::fs::read_dir(&self.dir.0)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
            .unwrap_or_default();
        files.sort();
        files
    }
}

pub const SALT: [u8; 16] = *b"0123456789abcdef";
pub const SECRET: [u8; 32] = *b"secret-secret-secret-secret-1234";

/// Everything needed to write storage files for a primary password.
pub fn writer(primary: &str) -> Writer {
    Writer::new(primary, &SALT, &SECRET)
}

pub fn quote(arg: &str, style: u8) -> String {
    let simple = !arg.is_empty() && arg.bytes().all(|b| b.is_ascii_alphanumeric() || b"_-.,:/@=".contains(&b));
    if simple && style % 3 != 2 {
        return arg.to_owned();
    }
    if style % 3 == 1 && !arg.is_empty() {
        // Backslash escapes
        return arg
            .chars()
            .map(|c| {
                if c.is_alphanumeric() || "_-.,:/@=".contains(c) {
                    c.to_string()
                } else {
                    format!("\\{}", c)
                }
            })
            .collect();
    }
    if arg.contains('\'') {
        // Double quotes
        let mut s = String::from("\"");
        for c in arg.chars() {
            if "$`\"\\".contains(c) {
                s.push('\\');
            }
            s.push(c);
        }
        s.push('"');
        s
    } else {
        format!("'{}'", arg)
    }
}

pub fn quote_all(args: &[String], style: u8) -> String {
    args.iter()
        .enumerate()
        .map(|(i, a)| quote(a, style.wrapping_add((i as u8).wrapping_mul(style / 3))))
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn s(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn errno(e: MErr) -> &'static str {
    match e {
        MErr::KeyMissing => "No such value in storage.",
        MErr::NoSuchAlias => "Site is not an alias.",
        MErr::AliasToSelf => "Cannot make a site an alias for itself.",
        MErr::SiteHasPasswords => "Site has passwords, remove before making it an alias.",
    }
}

pub fn check(cond: bool, what: impl FnOnce() -> String) -> R {
    ensure!(cond, "{}", what());
    Ok(())
}
