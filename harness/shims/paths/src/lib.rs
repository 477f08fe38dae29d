//! Stand-in for rust-analyzer's `paths`.
pub use camino::{Utf8Component, Utf8Path, Utf8PathBuf, Utf8Prefix};
use std::{borrow::Borrow, ffi::OsStr, fmt, ops, path::{Path, PathBuf}};
#[derive(Clone, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub struct AbsPathBuf(Utf8PathBuf);
#[derive(Eq, Hash, Ord, PartialOrd)]
#[repr(transparent)]
pub struct AbsPath(Utf8Path);
#[derive(Clone, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub struct RelPathBuf(Utf8PathBuf);
#[derive(PartialEq, Eq, Hash, Ord, PartialOrd)]
#[repr(transparent)]
pub struct RelPath(Utf8Path);
impl fmt::Debug for AbsPathBuf { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Debug for AbsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Display for AbsPathBuf { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl fmt::Display for AbsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl From<AbsPathBuf> for Utf8PathBuf { fn from(p: AbsPathBuf) -> Utf8PathBuf { p.0 } }
impl From<AbsPathBuf> for PathBuf { fn from(p: AbsPathBuf) -> PathBuf { p.0.into() } }
impl ops::Deref for AbsPathBuf { type Target = AbsPath; fn deref(&self) -> &AbsPath { self.as_path() } }
impl ops::Deref for AbsPath { type Target = Utf8Path; fn deref(&self) -> &Utf8Path { &self.0 } }
impl AsRef<Utf8Path> for AbsPathBuf { fn as_ref(&self) -> &Utf8Path { self.0.as_path() } }
impl AsRef<Path> for AbsPathBuf { fn as_ref(&self) -> &Path { self.0.as_std_path() } }
impl AsRef<OsStr> for AbsPathBuf { fn as_ref(&self) -> &OsStr { self.0.as_os_str() } }
impl AsRef<AbsPath> for AbsPathBuf { fn as_ref(&self) -> &AbsPath { self.as_path() } }
impl AsRef<Utf8Path> for AbsPath { fn as_ref(&self) -> &Utf8Path { &self.0 } }
impl AsRef<Path> for AbsPath { fn as_ref(&self) -> &Path { self.0.as_std_path() } }
impl AsRef<OsStr> for AbsPath { fn as_ref(&self) -> &OsStr { self.0.as_os_str() } }
impl Borrow<AbsPath> for AbsPathBuf { fn borrow(&self) -> &AbsPath { self.as_path() } }
impl ToOwned for AbsPath { type Owned = AbsPathBuf; fn to_owned(&self) -> AbsPathBuf { AbsPathBuf(self.0.to_owned()) } }
impl TryFrom<Utf8PathBuf> for AbsPathBuf { type Error = Utf8PathBuf; fn try_from(p: Utf8PathBuf) -> Result<AbsPathBuf, Utf8PathBuf> { if p.is_absolute() { Ok(AbsPathBuf(p)) } else { Err(p) } } }
impl TryFrom<&str> for AbsPathBuf { type Error = Utf8PathBuf; fn try_from(p: &str) -> Result<AbsPathBuf, Utf8PathBuf> { AbsPathBuf::try_from(Utf8PathBuf::from(p)) } }
impl TryFrom<PathBuf> for AbsPathBuf { type Error = PathBuf; fn try_from(p: PathBuf) -> Result<AbsPathBuf, PathBuf> { if p.is_absolute() { Utf8PathBuf::from_path_buf(p).map(AbsPathBuf) } else { Err(p) } } }
impl<'a> TryFrom<&'a Utf8Path> for &'a AbsPath { type Error = &'a Utf8Path; fn try_from(p: &'a Utf8Path) -> Result<&'a AbsPath, &'a Utf8Path> { if p.is_absolute() { Ok(AbsPath::assert(p)) } else { Err(p) } } }
impl PartialEq<AbsPath> for AbsPathBuf { fn eq(&self, o: &AbsPath) -> bool { self.as_path() == o } }
impl<P: AsRef<Path> + ?Sized> PartialEq<P> for AbsPath { fn eq(&self, o: &P) -> bool { self.0.as_std_path() == o.as_ref() } }
impl AbsPathBuf {
    pub fn assert(p: Utf8PathBuf) -> AbsPathBuf { AbsPathBuf::try_from(p).unwrap_or_else(|p| panic!("expected absolute path, got {p}")) }
    pub fn assert_utf8(p: PathBuf) -> AbsPathBuf { AbsPathBuf::assert(Utf8PathBuf::from_path_buf(p).expect("expected utf8 path")) }
    pub fn as_path(&self) -> &AbsPath { AbsPath::assert(self.0.as_path()) }
    pub fn pop(&mut self) -> bool { self.0.pop() }
    pub fn push<P: AsRef<Utf8Path>>(&mut self, p: P) { self.0.push(p) }
    pub fn join(&self, p: impl AsRef<Utf8Path>) -> Self { Self(self.0.join(p)) }
}
impl AbsPath {
    pub fn assert(p: &Utf8Path) -> &AbsPath { assert!(p.is_absolute(), "{p} is not absolute"); unsafe { &*(p as *const Utf8Path as *const AbsPath) } }
    pub fn parent(&self) -> Option<&AbsPath> { self.0.parent().map(AbsPath::assert) }
    pub fn absolutize(&self, p: impl AsRef<Utf8Path>) -> AbsPathBuf { self.join(p).normalize() }
    pub fn join(&self, p: impl AsRef<Utf8Path>) -> AbsPathBuf { AbsPathBuf(Utf8Path::join(&self.0, p)) }
    pub fn normalize(&self) -> AbsPathBuf { AbsPathBuf(normalize_path(&self.0)) }
    pub fn to_path_buf(&self) -> AbsPathBuf { AbsPathBuf(self.0.to_path_buf()) }
    pub fn canonicalize(&self) -> ! { panic!("We explicitly do not provide canonicalization API") }
    pub fn strip_prefix(&self, base: &AbsPath) -> Option<&RelPath> { self.0.strip_prefix(&base.0).ok().map(RelPath::new_unchecked) }
    pub fn starts_with(&self, base: &AbsPath) -> bool { self.0.starts_with(&base.0) }
    pub fn ends_with(&self, suffix: &RelPath) -> bool { self.0.ends_with(&suffix.0) }
    pub fn name_and_extension(&self) -> Option<(&str, Option<&str>)> { Some((self.file_stem()?, self.extension())) }
    pub fn file_name(&self) -> Option<&str> { self.0.file_name() }
    pub fn extension(&self) -> Option<&str> { self.0.extension() }
    pub fn file_stem(&self) -> Option<&str> { self.0.file_stem() }
    pub fn as_os_str(&self) -> &OsStr { self.0.as_os_str() }
    pub fn as_str(&self) -> &str { self.0.as_str() }
    pub fn exists(&self) -> bool { self.0.exists() }
    pub fn components(&self) -> camino::Utf8Components<'_> { self.0.components() }
}
impl RelPathBuf { pub fn as_path(&self) -> &RelPath { RelPath::new_unchecked(self.0.as_path()) } }
impl ops::Deref for RelPathBuf { type Target = RelPath; fn deref(&self) -> &RelPath { self.as_path() } }
impl TryFrom<&str> for RelPathBuf { type Error = Utf8PathBuf; fn try_from(p: &str) -> Result<RelPathBuf, Utf8PathBuf> { let p = Utf8PathBuf::from(p); if p.is_relative() { Ok(RelPathBuf(p)) } else { Err(p) } } }
impl RelPath {
    pub fn new_unchecked(p: &Utf8Path) -> &RelPath { unsafe { &*(p as *const Utf8Path as *const RelPath) } }
    pub fn to_path_buf(&self) -> RelPathBuf { RelPathBuf(self.0.to_path_buf()) }
    pub fn as_utf8_path(&self) -> &Utf8Path { &self.0 }
    pub fn as_str(&self) -> &str { self.0.as_str() }
}
impl AsRef<Utf8Path> for RelPath { fn as_ref(&self) -> &Utf8Path { &self.0 } }
fn normalize_path(path: &Utf8Path) -> Utf8PathBuf {
    let mut components = path.components().peekable();
    let mut ret = if let Some(c @ Utf8Component::Prefix(..)) = components.peek().copied() { components.next(); Utf8PathBuf::from(c.as_str()) } else { Utf8PathBuf::new() };
    for c in components {
        match c {
            Utf8Component::Prefix(..) => unreachable!(),
            Utf8Component::RootDir => ret.push(c.as_str()),
            Utf8Component::CurDir => {}
            Utf8Component::ParentDir => { ret.pop(); }
            Utf8Component::Normal(c) => ret.push(c),
        }
    }
    ret
}
