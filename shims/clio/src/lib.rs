//! Input and output named on a command line; `-` is standard input or output.
//! CLIO_CHUNK limits how much one call to `write` takes, as an operating system may.
use std::ffi::{OsStr, OsString};
use std::fmt;
use std::fs::File;
use std::io::{self, Read, Write};
use std::ops::Deref;
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub enum Error {
    Io(io::Error),
}
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let Error::Io(e) = self;
        write!(f, "{e}")
    }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error::Io(e)
    }
}
impl From<Error> for io::Error {
    fn from(e: Error) -> Self {
        let Error::Io(e) = e;
        e
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ClioPath(PathBuf);
impl ClioPath {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Result<Self> {
        Ok(Self(PathBuf::from(s.as_ref())))
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn is_std(&self) -> bool {
        self.0.as_os_str() == "-"
    }
    pub fn is_local(&self) -> bool {
        !self.is_std()
    }
    pub fn open(self) -> Result<Input> {
        Input::new(self.0)
    }
    pub fn create(self) -> Result<Output> {
        Output::new(self.0)
    }
}
impl Deref for ClioPath {
    type Target = Path;
    fn deref(&self) -> &Path {
        &self.0
    }
}
impl AsRef<Path> for ClioPath {
    fn as_ref(&self) -> &Path {
        &self.0
    }
}
impl fmt::Display for ClioPath {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0.display())
    }
}
pub type InputPath = ClioPath;
pub type OutputPath = ClioPath;

#[derive(Debug)]
pub struct Input {
    path: ClioPath,
    file: Option<File>,
}
impl Input {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Result<Self> {
        let path = ClioPath::new(s)?;
        let file = if path.is_std() { None } else { Some(File::open(&path)?) };
        Ok(Self { path, file })
    }
    pub fn std() -> Self {
        Self { path: ClioPath("-".into()), file: None }
    }
    pub fn path(&self) -> &ClioPath {
        &self.path
    }
    pub fn is_std(&self) -> bool {
        self.path.is_std()
    }
    pub fn len(&self) -> Option<u64> {
        self.file.as_ref().and_then(|f| f.metadata().ok()).map(|m| m.len())
    }
    pub fn get_file(&mut self) -> Option<&mut File> {
        self.file.as_mut()
    }
}
impl Read for Input {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        match &mut self.file {
            Some(f) => f.read(b),
            None => io::stdin().read(b),
        }
    }
}
impl Clone for Input {
    fn clone(&self) -> Self {
        Self { path: self.path.clone(), file: self.file.as_ref().map(|f| f.try_clone().expect("clone")) }
    }
}

#[derive(Debug)]
pub struct Output {
    path: ClioPath,
    file: Option<File>,
}
impl Output {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Result<Self> {
        let path = ClioPath::new(s)?;
        let file = if path.is_std() { None } else { Some(File::create(&path)?) };
        Ok(Self { path, file })
    }
    pub fn std() -> Self {
        Self { path: ClioPath("-".into()), file: None }
    }
    pub fn path(&self) -> &ClioPath {
        &self.path
    }
    pub fn is_std(&self) -> bool {
        self.path.is_std()
    }
    pub fn get_file(&mut self) -> Option<&mut File> {
        self.file.as_mut()
    }
    pub fn finish(mut self) -> Result<()> {
        Ok(self.flush()?)
    }
}
impl Write for Output {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let most = std::env::var("CLIO_CHUNK").ok().and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
        let b = &b[..b.len().min(most)];
        match &mut self.file {
            Some(f) => f.write(b),
            None => io::stdout().write(b),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match &mut self.file {
            Some(f) => f.flush(),
            None => io::stdout().flush(),
        }
    }
}
impl Clone for Output {
    fn clone(&self) -> Self {
        Self { path: self.path.clone(), file: self.file.as_ref().map(|f| f.try_clone().expect("clone")) }
    }
}

macro_rules! parsed {
    ($($t:ty)*) => { $(
        impl TryFrom<&OsStr> for $t {
            type Error = Error;
            fn try_from(s: &OsStr) -> Result<Self> {
                Self::new(s)
            }
        }
        impl TryFrom<OsString> for $t {
            type Error = Error;
            fn try_from(s: OsString) -> Result<Self> {
                Self::new(s)
            }
        }
        impl clap::builder::ValueParserFactory for $t {
            type Parser = OsStrParser<$t>;
            fn value_parser() -> Self::Parser {
                OsStrParser::new()
            }
        }
    )* };
}
parsed!(Input Output ClioPath);

pub struct OsStrParser<T>(std::marker::PhantomData<fn() -> T>);
impl<T> OsStrParser<T> {
    pub fn new() -> Self {
        Self(std::marker::PhantomData)
    }
}
impl<T> Default for OsStrParser<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> Clone for OsStrParser<T> {
    fn clone(&self) -> Self {
        Self::new()
    }
}
impl<T> clap::builder::TypedValueParser for OsStrParser<T>
where
    T: for<'s> TryFrom<&'s OsStr, Error = Error> + Clone + Send + Sync + 'static,
{
    type Value = T;
    fn parse_ref(&self, cmd: &clap::Command, arg: Option<&clap::Arg>, value: &OsStr) -> std::result::Result<T, clap::Error> {
        T::try_from(value).map_err(|e| {
            let name = arg.map(|a| a.to_string()).unwrap_or_default();
            cmd.clone().error(clap::error::ErrorKind::InvalidValue, format!("Invalid value for {name}: Could not open {:?}: {e}", value))
        })
    }
}
