//! Running Ruby programs on the real interpreter, each one in a forked copy of a freshly started
//! interpreter, so that no program sees anything another one left behind and a crash or an endless
//! loop is the outcome of exactly one program.



use monoruby::{Executor, Globals};
use std::cell::UnsafeCell;
use std::path::{Path, PathBuf};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    /// `inspect` of the value of the program.
    Val(String),
    /// An exception left the program.
    Err(String),
    /// The process died or did not come to an end.
    Died(String),
}

impl std::fmt::Display for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Out::Val(s) => write!(f, "{s}"),
            Out::Err(s) => write!(f, "uncaught exception {s}"),
            Out::Died(s) => write!(f, "interpreter {s}"),
        }
    }
}

struct Vm {
    globals: Globals,
    executor: Executor,
}

struct Slot(UnsafeCell<Option<Vm>>);
unsafe impl Sync for Slot {}
static VM: Slot = Slot(UnsafeCell::new(None));

const BUF: usize = 4 << 20;
static SHARED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

fn copy_tree(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let dest = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_tree(&e.path(), &dest)?;
        } else {
            std::fs::copy(e.path(), dest)?;
        }
    }
    Ok(())
}

/// Lay out the Ruby-level files of the interpreter the way its own build script installs them, and
/// point the interpreter at them.
fn install() {
    let root = verif_dir().join("target").join(format!("vmroot-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&root);
    let src = Path::new("/repo/monoruby");
    for (from, to) in [
        ("vendor/ruby-stdlib", "lib"),
        ("builtins", "builtins"),
        ("stdlib", "lib"),
        ("gem", "lib"),
        ("stdlib", "stub"),
        ("gem", "stub"),
    ] {
        let from = src.join(from);
        if from.is_dir() {
            copy_tree(&from, &root.join(to)).expect("copy of the Ruby-level files");
        }
    }
    let home = root.join("home");
    std::fs::create_dir_all(&home).unwrap();
    unsafe {
        std::env::set_var("MONORUBY_INSTALL_ROOT", &root);
        std::env::set_var("MONORUBY_LOAD_PATH", root.join("lib"));
        std::env::set_var("MONORUBY_GEM_PATH", "/nonexistent");
        std::env::set_var("GEM_PATH", "/nonexistent");
        std::env::set_var("HOME", &home);
        std::env::set_var("TZ", "UTC");
        std::env::set_var("LANG", "C.UTF-8");
        for v in ["RUBYOPT", "RUBYLIB", "MONORUBY_SKIP_STARTUP"] {
            std::env::remove_var(v);
        }
    }
    // `exit` of this process (not of its forks) takes the files away again.
    extern "C" fn clean() {
        if let Some(root) = std::env::var_os("MONORUBY_INSTALL_ROOT") {
            let own = format!("vmroot-{}", std::process::id());
            let root = PathBuf::from(root);
            if root.file_name().is_some_and(|f| f.to_string_lossy() == own) {
                let _ = std::fs::remove_dir_all(root);
            }
        }
    }
    unsafe { libc::atexit(clean) };
}

/// Start the interpreter in this process. `prelude` is Ruby code that every program finds loaded.
pub fn boot(no_jit: bool, prelude: &str) {
    install();
    let mut globals = Globals::new(0, no_jit, true);
    let mut executor = match Executor::init(&mut globals, "t.rb") {
        Ok(e) => e,
        Err(e) => {
            println!("ERROR the interpreter does not start: {}", e.get_error_message(&globals.store));
            std::process::exit(3);
        }
    };
    executor.init_stack_limit(&globals);
    if !prelude.is_empty()
        && let Err(e) = executor.exec_script(&mut globals, prelude, Path::new("prelude.rb"))
    {
        println!("ERROR the prelude fails: {}", e.get_error_message(&globals.store));
        std::process::exit(3);
    }
    unsafe { *VM.0.get() = Some(Vm { globals, executor }) };
}

/// Run `code` in a forked copy of the started interpreter.
pub fn run(code: &str) -> Out {
    run_for(code, 20)
}

pub fn run_for(code: &str, secs: u32) -> Out {
    use std::sync::atomic::Ordering::Relaxed;
    let buf = match SHARED.load(Relaxed) {
        0 => unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                BUF,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            OWNER.store(libc::getpid() as usize, Relaxed);
            SHARED.store(p as usize, Relaxed);
            p as usize
        },
        p => p,
    };
    if OWNER.load(Relaxed) != unsafe { libc::getpid() } as usize {
        SHARED.store(0, Relaxed);
        return run_for(code, secs);
    }
    let buf = buf as *mut u8;
    unsafe {
        (buf as *mut u64).write(u64::MAX);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(secs);
            child(code, buf);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        let n = (buf as *const u64).read();
        if n == u64::MAX {
            return Out::Died(if libc::WIFSIGNALED(st) {
                match libc::WTERMSIG(st) {
                    libc::SIGALRM => format!("still runs after {secs} s"),
                    s => format!("was killed by signal {s}"),
                }
            } else {
                format!("exited with status {}", libc::WEXITSTATUS(st))
            });
        }
        let tag = buf.add(8).read();
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(buf.add(9), n as usize)).into_owned();
        match tag {
            0 => Out::Val(s),
            1 => Out::Err(s),
            _ => Out::Died(format!("panicked: {s}")),
        }
    }
}

static OWNER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

unsafe fn child(code: &str, buf: *mut u8) -> ! {
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        for fd in 0..3 {
            if fd != 2 || std::env::var_os("MC_STDERR").is_none() {
                libc::dup2(null, fd);
            }
        }
        let vm = (*VM.0.get()).as_mut().expect("the interpreter was not started");
        vm.executor.init_stack_limit(&vm.globals);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            match vm.executor.exec_script(&mut vm.globals, code, Path::new("t.rb")) {
                Ok(v) => (0u8, v.inspect(&vm.globals.store)),
                Err(e) => (1, format!("{}: {}", e.class_name(&vm.globals.store), e.get_error_message(&vm.globals.store))),
            }
        }));
        let (tag, s) = r.unwrap_or_else(|_| (2, engine::last_panic()));
        let n = s.len().min(BUF - 16);
        std::ptr::copy_nonoverlapping(s.as_ptr(), buf.add(9), n);
        buf.add(8).write(tag);
        (buf as *mut u64).write(n as u64);
        libc::_exit(0)
    }
}

pub mod arg;
pub mod ary;
pub mod ctl;
pub mod dsp;
pub mod fib;
pub mod flt;
pub mod hsh;
pub mod num;
pub mod ord;
pub mod red;
pub mod text;
pub mod var;
pub mod wide;

/// What the check of one property explores, and the Ruby code its programs find loaded.
pub struct Plan {
    pub prelude: String,
    pub rule: String,
    pub spaces: Vec<engine::Space<'static>>,
}

/// Ruby helpers every numeric program uses.
pub const SCHED: &str = r##"
# Calls the block with a small pair and with the pair under test in phases, so that the code in it is
# interpreted, then compiled for small numbers, then meets the pair under test, is recompiled, and goes
# back. Every call with the same pair must give the same answer.
def __sched(sa, sb, va, vb)
  fs = fv = nil
  k = 0
  while k < 66
    small = k < 24 || (k >= 46 && k < 52)
    r = begin
      (small ? yield(sa, sb) : yield(va, vb)).inspect
    rescue Exception => e
      e.class.to_s
    end
    if small
      fs = r if fs.nil?
      return "#{fs} but #{r} on call #{k}" if fs != r
    else
      fv = r if fv.nil?
      return "#{fv} but #{r} on call #{k}" if fv != r
    end
    k += 1
  end
  "#{fs} #{fv}"
end
"##;

/// Compare the `|`-joined answers of a program with the expected ones.
pub fn compare(out: &Out, want: &[(String, String)]) -> Result<(), String> {
    let Out::Val(s) = out else {
        return Err(format!("{out} (asked from {})", want[0].0));
    };
    let s = s.trim_matches('"');
    let got: Vec<&str> = s.split('|').collect();
    if got.len() != want.len() {
        return Err(format!("{} answers instead of {}: {s}", got.len(), want.len()));
    }
    let all = std::env::var_os("MC_SURVEY").is_some();
    let mut bad = String::new();
    for (g, (what, w)) in got.iter().zip(want) {
        if g != w {
            bad = format!("{bad}{}{what}: expected {w}, got {g}", if bad.is_empty() { "" } else { "\n" });
            if !all {
                break;
            }
        }
    }
    if !bad.is_empty() {
        return Err(bad);
    }
    Ok(())
}

/// A float the way Ruby writes it.
pub fn ruby_float(x: f64) -> String {
    if x.is_nan() {
        return "NaN".into();
    }
    if x.is_infinite() {
        return if x > 0.0 { "Infinity" } else { "-Infinity" }.into();
    }
    if x == 0.0 {
        return if x.is_sign_negative() { "-0.0" } else { "0.0" }.into();
    }
    // Rust's `{:e}` gives the shortest digits that read back as the same number.
    let s = format!("{:e}", x.abs());
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let body = if (-4..15).contains(&e) {
        if e < 0 {
            format!("0.{}{digits}", "0".repeat((-e - 1) as usize))
        } else {
            let point = e as usize + 1;
            if digits.len() > point {
                format!("{}.{}", &digits[..point], &digits[point..])
            } else {
                format!("{digits}{}.0", "0".repeat(point - digits.len()))
            }
        }
    } else {
        let (a, b) = digits.split_at(1);
        format!("{a}.{}e{}{:02}", if b.is_empty() { "0" } else { b }, if e < 0 { '-' } else { '+' }, e.abs())
    };
    if x < 0.0 { format!("-{body}") } else { body }
}

/// Run a program that yields `|`-joined answers and compare them with the expected ones, given as
/// pairs of what was asked and the answer. Quotes are left out on both sides.
pub fn run_items(p: String, want: Vec<(String, String)>, c: &mut engine::Ctx) -> engine::CaseResult {
    for (w, e) in &want {
        c.step(|| format!("{w} => {e}"));
        let mut f = engine::Fp::default();
        f.add_bytes(w.as_bytes());
        c.state(f.0);
    }
    c.execution();
    let want: Vec<_> = want.into_iter().map(|(w, e)| (w, e.replace('"', ""))).collect();
    let out = run(&p);
    compare(&out, &want).map_err(|m| format!("{m}\n{}", if c.tracing { p.as_str() } else { "" }))
}
