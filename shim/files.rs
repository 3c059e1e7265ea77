/// files that exist only in memory
pub mod files {
    static mut FILES: ::std::vec::Vec<(::std::string::String, ::std::string::String)> = ::std::vec::Vec::new();
    #[allow(static_mut_refs)]
    pub fn set(path: &str, text: ::std::string::String) {
        unsafe { FILES.push((path.into(), text)) }
    }
    #[allow(static_mut_refs)]
    pub fn clear() {
        unsafe { FILES.clear() }
        written().clear();
    }
    static mut WRITTEN: ::std::vec::Vec<(::std::vec::Vec<u8>, ::std::vec::Vec<u8>, usize)> = ::std::vec::Vec::new();
    /// the files created since, with what was written to them and the place of the next write
    #[allow(static_mut_refs)]
    pub fn written() -> &'static mut ::std::vec::Vec<(::std::vec::Vec<u8>, ::std::vec::Vec<u8>, usize)> {
        unsafe { &mut WRITTEN }
    }
    #[allow(static_mut_refs)]
    pub fn get(path: &[u8]) -> Option<&'static str> {
        unsafe { FILES.iter().rev().find(|f| f.0.as_bytes() == path).map(|f| &f.1[..]) }
    }
}
pub mod fs {
    pub use ::std::fs::*;
    /// only the files of this process's memory exist
    pub fn read_to_string<P: AsRef<::std::path::Path>>(path: P) -> ::std::io::Result<::std::string::String> {
        match super::files::get(path.as_ref().as_os_str().as_encoded_bytes()) {
            Some(s) => Ok(s.into()),
            None => Err(::std::io::ErrorKind::NotFound.into()),
        }
    }

    pub fn read<P: AsRef<::std::path::Path>>(path: P) -> ::std::io::Result<::std::vec::Vec<u8>> {
        Ok(read_to_string(path)?.into_bytes())
    }
    pub fn write<P: AsRef<::std::path::Path>, C: AsRef<[u8]>>(path: P, contents: C) -> ::std::io::Result<()> {
        ::std::io::Write::write_all(&mut File::create(path)?, contents.as_ref())
    }

    /// files created are kept in memory; none can be created in the folder "no"
    #[derive(Debug)]
    pub enum File {
        Read(&'static [u8]),
        Write(usize),
    }
    impl File {
        pub fn open<P: AsRef<::std::path::Path>>(path: P) -> ::std::io::Result<File> {
            match super::files::get(path.as_ref().as_os_str().as_encoded_bytes()) {
                Some(s) => Ok(File::Read(s.as_bytes())),
                None => Err(::std::io::ErrorKind::NotFound.into()),
            }
        }
        pub fn create<P: AsRef<::std::path::Path>>(path: P) -> ::std::io::Result<File> {
            let p = path.as_ref().as_os_str().as_encoded_bytes();
            if p.starts_with(b"no/") {
                return Err(::std::io::ErrorKind::NotFound.into());
            }
            let w = super::files::written();
            // what was in a file of this name is gone
            w.retain(|f| f.0 != p);
            w.push((p.to_vec(), ::std::vec::Vec::with_capacity(64), 0));
            Ok(File::Write(w.len() - 1))
        }
    }
    impl File {
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn create_new<P: AsRef<::std::path::Path>>(path: P) -> ::std::io::Result<File> {
            OpenOptions::new().read(true).write(true).create_new(true).open(path)
        }
        pub fn sync_all(&self) -> ::std::io::Result<()> {
            Ok(())
        }
        pub fn sync_data(&self) -> ::std::io::Result<()> {
            Ok(())
        }
    }
    impl ::std::io::Read for File {
        fn read(&mut self, b: &mut [u8]) -> ::std::io::Result<usize> {
            match self {
                File::Read(s) => ::std::io::Read::read(s, b),
                File::Write(_) => Err(::std::io::ErrorKind::Unsupported.into()),
            }
        }
    }
    impl ::std::io::Write for File {
        fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> {
            match self {
                File::Read(_) => Err(::std::io::ErrorKind::Unsupported.into()),
                File::Write(k) => {
                    let w = &mut super::files::written()[*k];
                    let over = b.len().min(w.1.len() - w.2);
                    w.1[w.2..w.2 + over].copy_from_slice(&b[..over]);
                    w.1.extend_from_slice(&b[over..]);
                    w.2 += b.len();
                    Ok(b.len())
                }
            }
        }
        fn flush(&mut self) -> ::std::io::Result<()> {
            Ok(())
        }
    }
    #[derive(Debug, Clone, Default)]
    pub struct OpenOptions {
        read: bool,
        write: bool,
        append: bool,
        truncate: bool,
        create: bool,
        create_new: bool,
    }
    macro_rules! option {
        ($($name:ident)*) => {
            $(pub fn $name(&mut self, x: bool) -> &mut Self {
                self.$name = x;
                self
            })*
        };
    }
    impl OpenOptions {
        pub fn new() -> Self {
            Self::default()
        }
        option!(read write append truncate create create_new);
        pub fn open<P: AsRef<::std::path::Path>>(&self, path: P) -> ::std::io::Result<File> {
            let p = path.as_ref().as_os_str().as_encoded_bytes();
            let old = super::files::get(p);
            if !self.write && !self.append {
                return File::open(path);
            }
            if old.is_some() && self.create_new {
                return Err(::std::io::ErrorKind::AlreadyExists.into());
            }
            if old.is_none() && !self.create && !self.create_new {
                return Err(::std::io::ErrorKind::NotFound.into());
            }
            let f = File::create(path)?;
            if let (Some(old), File::Write(k), false) = (old, &f, self.truncate) {
                let w = &mut super::files::written()[*k];
                w.1.extend_from_slice(old.as_bytes());
                // what is not overwritten of it stays
                w.2 = if self.append { old.len() } else { 0 };
            }
            Ok(f)
        }
    }
}
