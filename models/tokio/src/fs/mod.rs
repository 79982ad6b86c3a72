mod buf;
mod file;
pub use file::File;

use crate::task::spawn_blocking;
use std::fs::OpenOptions as StdOpenOptions;
use std::io;
use std::path::Path;

pub(crate) async fn asyncify<F, T>(f: F) -> io::Result<T>
where
    F: FnOnce() -> io::Result<T> + Send + 'static,
    T: Send + 'static,
{
    match spawn_blocking(f).await {
        Ok(res) => res,
        Err(_) => Err(io::Error::new(io::ErrorKind::Other, "background task failed")),
    }
}

#[derive(Clone, Debug)]
pub struct OpenOptions(StdOpenOptions);
impl OpenOptions {
    pub fn new() -> OpenOptions {
        OpenOptions(StdOpenOptions::new())
    }
    pub fn read(&mut self, x: bool) -> &mut OpenOptions {
        self.0.read(x);
        self
    }
    pub fn write(&mut self, x: bool) -> &mut OpenOptions {
        self.0.write(x);
        self
    }
    pub fn append(&mut self, x: bool) -> &mut OpenOptions {
        self.0.append(x);
        self
    }
    pub fn truncate(&mut self, x: bool) -> &mut OpenOptions {
        self.0.truncate(x);
        self
    }
    pub fn create(&mut self, x: bool) -> &mut OpenOptions {
        self.0.create(x);
        self
    }
    pub fn create_new(&mut self, x: bool) -> &mut OpenOptions {
        self.0.create_new(x);
        self
    }
    pub async fn open(&self, path: impl AsRef<Path>) -> io::Result<File> {
        let path = path.as_ref().to_owned();
        let opts = self.0.clone();
        let std = asyncify(move || opts.open(path)).await?;
        Ok(File::from_std(std))
    }
}
impl From<StdOpenOptions> for OpenOptions {
    fn from(o: StdOpenOptions) -> OpenOptions {
        OpenOptions(o)
    }
}

pub async fn rename(from: impl AsRef<Path>, to: impl AsRef<Path>) -> io::Result<()> {
    let (a, b) = (from.as_ref().to_owned(), to.as_ref().to_owned());
    asyncify(move || std::fs::rename(a, b)).await
}
pub async fn remove_file(path: impl AsRef<Path>) -> io::Result<()> {
    let path = path.as_ref().to_owned();
    asyncify(move || std::fs::remove_file(path)).await
}
pub async fn create_dir(path: impl AsRef<Path>) -> io::Result<()> {
    let path = path.as_ref().to_owned();
    asyncify(move || std::fs::create_dir(path)).await
}
pub async fn create_dir_all(path: impl AsRef<Path>) -> io::Result<()> {
    let path = path.as_ref().to_owned();
    asyncify(move || std::fs::create_dir_all(path)).await
}
pub async fn metadata(path: impl AsRef<Path>) -> io::Result<std::fs::Metadata> {
    let path = path.as_ref().to_owned();
    asyncify(move || std::fs::metadata(path)).await
}
pub async fn read(path: impl AsRef<Path>) -> io::Result<Vec<u8>> {
    let path = path.as_ref().to_owned();
    asyncify(move || std::fs::read(path)).await
}
pub async fn write(path: impl AsRef<Path>, data: impl AsRef<[u8]>) -> io::Result<()> {
    let path = path.as_ref().to_owned();
    let data = data.as_ref().to_owned();
    asyncify(move || std::fs::write(path, data)).await
}
pub async fn read_to_string(path: impl AsRef<Path>) -> io::Result<String> {
    let path = path.as_ref().to_owned();
    asyncify(move || std::fs::read_to_string(path)).await
}
