//! The standard library with file output replaced: what a program writes is kept in memory, by path.
//! Nothing reaches the real filesystem.
pub use ::std::*;
#[allow(unused_imports)]
pub use ::std::prelude::rust_2021 as prelude_2021;

pub mod captured {
    use ::std::sync::Mutex;
    pub static FILES: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(Vec::new());
    pub fn create(p: &str, truncate: bool) {
        let mut f = FILES.lock().unwrap();
        match f.iter_mut().find(|x| x.0 == p) {
            Some(x) => {
                if truncate {
                    x.1.clear()
                }
            }
            None => f.push((p.to_string(), Vec::new())),
        }
    }
    pub fn append(p: &str, b: &[u8]) {
        let mut f = FILES.lock().unwrap();
        f.iter_mut().find(|x| x.0 == p).unwrap().1.extend_from_slice(b);
    }
    pub fn take() -> Vec<(String, Vec<u8>)> {
        ::std::mem::take(&mut *FILES.lock().unwrap())
    }
}

pub mod fs {
    use crate::captured;
    use ::std::io;
    use ::std::path::Path;
    pub struct File(String);
    fn name(p: &Path) -> String {
        p.to_string_lossy().into_owned()
    }
    impl File {
        pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
            let n = name(p.as_ref());
            captured::create(&n, true);
            Ok(File(n))
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn sync_all(&self) -> io::Result<()> {
            Ok(())
        }
    }
    impl io::Write for File {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            captured::append(&self.0, b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl io::Write for &File {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            captured::append(&self.0, b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    #[derive(Clone, Default)]
    pub struct OpenOptions {
        truncate: bool,
    }
    impl OpenOptions {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn write(&mut self, _b: bool) -> &mut Self {
            self
        }
        pub fn create(&mut self, _b: bool) -> &mut Self {
            self
        }
        pub fn append(&mut self, _b: bool) -> &mut Self {
            self
        }
        pub fn truncate(&mut self, b: bool) -> &mut Self {
            self.truncate = b;
            self
        }
        pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
            let n = name(p.as_ref());
            captured::create(&n, self.truncate);
            Ok(File(n))
        }
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
        let n = name(p.as_ref());
        captured::create(&n, true);
        captured::append(&n, c.as_ref());
        Ok(())
    }
}
