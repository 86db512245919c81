//! The standard library as the command line tools see it: command line, files, terminal and
//! exit are a small world held in memory, everything else is the real thing.
pub use ::std::*;

use ::std::cell::RefCell;
use ::std::string::String;
use ::std::vec::Vec;

/// What a run of a tool starts from and leaves behind.
#[derive(Default)]
pub struct World {
    pub args: Vec<String>,
    pub files: Vec<(String, Vec<u8>)>,
    /// paths that can neither be read nor written
    pub closed: Vec<String>,
    /// paths written, renamed over or removed, in order
    pub touched: Vec<String>,
    pub out: String,
    pub err: String,
    pub code: Option<i32>,
}
thread_local!(static WORLD: RefCell<World> = RefCell::new(World::default()));

pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
pub fn out(s: &str) {
    world(|w| w.out.push_str(s))
}
pub fn err(s: &str) {
    world(|w| w.err.push_str(s))
}
#[macro_export]
macro_rules! print { ($($a:tt)*) => { $crate::out(&::std::format!($($a)*)) } }
#[macro_export]
macro_rules! println { () => { $crate::out("\n") }; ($($a:tt)*) => {{ $crate::out(&::std::format!($($a)*)); $crate::out("\n"); }} }
#[macro_export]
macro_rules! eprint { ($($a:tt)*) => { $crate::err(&::std::format!($($a)*)) } }
#[macro_export]
macro_rules! eprintln { () => { $crate::err("\n") }; ($($a:tt)*) => {{ $crate::err(&::std::format!($($a)*)); $crate::err("\n"); }} }

pub mod prelude {
    pub mod v1 {
        pub use crate::{eprint, eprintln, print, println};
        pub use ::std::prelude::rust_2021::*;
        pub use ::std::{dbg, format, thread_local, vec};
    }
    pub use ::std::prelude::rust_2021;
}
pub mod env {
    pub use ::std::env::*;
    pub type Args = ::std::vec::IntoIter<::std::string::String>;
    pub type ArgsOs = ::std::vec::IntoIter<::std::ffi::OsString>;
    pub fn args() -> Args {
        crate::world(|w| w.args.clone()).into_iter()
    }
    pub fn args_os() -> ArgsOs {
        crate::world(|w| w.args.iter().map(|a| a.into()).collect::<::std::vec::Vec<_>>()).into_iter()
    }
}
pub mod process {
    pub use ::std::process::*;
    pub struct Exit;
    pub fn exit(code: i32) -> ! {
        crate::world(|w| w.code = Some(code));
        ::std::panic::resume_unwind(::std::boxed::Box::new(Exit))
    }
}
pub mod io {
    pub use ::std::io::*;
    pub struct Out(bool);
    pub fn stdout() -> Out {
        Out(false)
    }
    pub fn stderr() -> Out {
        Out(true)
    }
    impl Out {
        pub fn lock(self) -> Out {
            self
        }
    }
    impl Write for Out {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            let s = ::std::string::String::from_utf8_lossy(b);
            if self.0 { crate::err(&s) } else { crate::out(&s) }
            Ok(b.len())
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
}
pub mod fs {
    pub use ::std::fs::*;
    use ::std::io::{self, ErrorKind, Read, Write};
    use ::std::path::Path;
    use ::std::string::{String, ToString};
    use ::std::vec::Vec;

    fn name(p: &Path) -> String {
        p.to_str().unwrap_or("?").to_string()
    }
    fn get(n: &str) -> io::Result<Vec<u8>> {
        crate::world(|w| {
            if w.closed.iter().any(|c| c == n) {
                return Err(ErrorKind::PermissionDenied.into());
            }
            w.files.iter().find(|f| f.0 == n).map(|f| f.1.clone()).ok_or(ErrorKind::NotFound.into())
        })
    }
    fn put(n: &str, b: &[u8], append: bool) -> io::Result<()> {
        crate::world(|w| {
            if w.closed.iter().any(|c| c == n) || n.is_empty() || n.ends_with('/') {
                return Err(ErrorKind::PermissionDenied.into());
            }
            w.touched.push(n.to_string());
            match w.files.iter_mut().find(|f| f.0 == n) {
                Some(f) => {
                    if !append {
                        f.1.clear();
                    }
                    f.1.extend_from_slice(b)
                }
                None => w.files.push((n.to_string(), b.to_vec())),
            }
            Ok(())
        })
    }
    pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
        get(&name(p.as_ref()))
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
        String::from_utf8(get(&name(p.as_ref()))?).map_err(|_| ErrorKind::InvalidData.into())
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
        put(&name(p.as_ref()), c.as_ref(), false)
    }
    pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
        let n = name(p.as_ref());
        Ok(crate::world(|w| w.files.iter().any(|f| f.0 == n)))
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
        let n = name(p.as_ref());
        get(&n)?;
        crate::world(|w| {
            w.touched.push(n.clone());
            w.files.retain(|f| f.0 != n)
        });
        Ok(())
    }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<()> {
        let b = read(&p)?;
        write(q, b)?;
        remove_file(p)
    }
    pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<u64> {
        let b = read(&p)?;
        write(q, &b)?;
        Ok(b.len() as u64)
    }
    pub struct File {
        name: String,
        at: usize,
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
            get(&name(p.as_ref()))?;
            Ok(File { name: name(p.as_ref()), at: 0 })
        }
        pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
            put(&name(p.as_ref()), b"", false)?;
            Ok(File { name: name(p.as_ref()), at: 0 })
        }
        pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
            if exists(&p)? {
                return Err(ErrorKind::AlreadyExists.into());
            }
            File::create(p)
        }
    }
    impl Read for File {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let all = get(&self.name)?;
            let n = b.len().min(all.len() - self.at);
            b[..n].copy_from_slice(&all[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        }
    }
    impl Write for File {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            put(&self.name, b, true)?;
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
}

/// Runs a tool in a world; `None` for a panic.
pub fn run(w: World, main: impl FnOnce() -> i32) -> (World, Option<i32>) {
    world(|x| *x = w);
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(main)).ok();
    let w = world(::std::mem::take);
    let code = r.or(w.code);
    (w, code)
}
