//! In-memory filesystem that logs every effect, so that every crash image can be rebuilt, and that
//! can inject faults and scheduling points.

use std::{
    collections::{BTreeMap, HashMap},
    io::{Error as IoError, ErrorKind},
    pin::Pin,
    sync::{
        Arc, Mutex, Weak,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
};

use fusio::{
    IoBuf, IoBufMut, Read, Write,
    durability::FileCommit,
    dynamic::MaybeSendFuture,
    error::Error,
    fs::{CasCondition, FileMeta, FileSystemTag, Fs, FsCas, OpenOptions},
    path::Path,
};
use futures::{Stream, stream};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Create(String),
    Trunc(String),
    Append(String, Vec<u8>),
    Sync(String),
    SetLen(String, usize),
    Remove(String),
    /// Atomic whole-object replacement (CAS put or copy).
    Put(String, Vec<u8>, Vec<(String, String)>),
    Mark(String),
}

impl Ev {
    pub fn path(&self) -> Option<&str> {
        match self {
            Ev::Create(p) | Ev::Trunc(p) | Ev::Append(p, _) | Ev::Sync(p) | Ev::SetLen(p, _) | Ev::Remove(p) | Ev::Put(p, _, _) => Some(p),
            Ev::Mark(_) => None,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Ev::Create(p) => format!("create {p}"),
            Ev::Trunc(p) => format!("trunc {p}"),
            Ev::Append(p, d) => format!("append {p} +{}", d.len()),
            Ev::Sync(p) => format!("sync {p}"),
            Ev::SetLen(p, n) => format!("setlen {p} {n}"),
            Ev::Remove(p) => format!("remove {p}"),
            Ev::Put(p, d, _) => format!("put {p} {}", d.len()),
            Ev::Mark(m) => format!("mark {m}"),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct FileImg {
    pub data: Vec<u8>,
    pub synced: usize,
    pub etag: u64,
    pub meta: Vec<(String, String)>,
}

pub type Image = BTreeMap<String, FileImg>;

/// What to do to the n-th mutating operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// Fail without any effect.
    Err,
    /// Apply half of an append (or the whole of another effect), then fail.
    Partial,
    /// Fail this and every later mutating operation.
    Dead,
}

#[derive(Default)]
struct State {
    files: Image,
    log: Vec<Ev>,
    tag_counter: u64,
    ops: u64,
    fault: Option<(u64, FaultKind)>,
    fault_filter: Option<String>,
    fault_hit: Option<String>,
    reads: u64,
    read_fault: Option<u64>,
    op_names: Vec<String>,
}

struct Shared {
    st: Mutex<State>,
    yields: AtomicBool,
    split: AtomicBool,
    /// Writes stay in the handle until it is flushed or closed (lost when it is dropped).
    buffered: AtomicBool,
    tag: Mutex<FileSystemTag>,
    real_root: Mutex<Option<std::path::PathBuf>>,
    /// Restrict yields to paths containing one of these substrings (empty: all).
    yield_filter: Mutex<Vec<String>>,
}

#[derive(Clone)]
pub struct TraceFs {
    sh: Arc<Shared>,
}

static SYNC_REG: Mutex<BTreeMap<String, Weak<Shared>>> = Mutex::new(BTreeMap::new());

fn registered(real: &str) -> Option<Arc<Shared>> {
    let reg = SYNC_REG.lock().unwrap();
    reg.iter().find(|(root, _)| real.starts_with(root.as_str())).and_then(|(_, w)| w.upgrade())
}

/// Called by the interposed fsync/fdatasync with the real path of the file. Returns false if the
/// call must fail.
pub fn note_sync(real: &str) -> bool {
    let Some(sh) = registered(real) else { return true };
    let mut st = sh.st.lock().unwrap();
    let key = real.trim_start_matches('/').to_string();
    if TraceFs::mutate(&mut st, &format!("sync {key}")).is_some() {
        return false;
    }
    if let Some(f) = st.files.get_mut(&key) {
        f.synced = f.data.len();
    }
    st.log.push(Ev::Sync(key));
    true
}

/// Called by the interposed ftruncate: Some(ok) if the file is simulated.
pub fn note_truncate(real: &str, len: usize) -> Option<bool> {
    let sh = registered(real)?;
    let mut st = sh.st.lock().unwrap();
    let key = real.trim_start_matches('/').to_string();
    if TraceFs::mutate(&mut st, &format!("setlen {key}")).is_some() {
        return Some(false);
    }
    let ev = Ev::SetLen(key, len);
    apply_ev(&mut st.files, &ev, 0);
    st.log.push(ev);
    Some(true)
}

impl Default for TraceFs {
    fn default() -> Self {
        Self::new()
    }
}

fn nf(p: &str) -> Error {
    Error::Io(IoError::new(ErrorKind::NotFound, format!("path {p} not found")))
}
fn injected(op: &str) -> Error {
    Error::Io(IoError::other(format!("injected fault at {op}")))
}

impl TraceFs {
    pub fn new() -> Self {
        Self::from_image(Image::new())
    }
    pub fn from_image(files: Image) -> Self {
        let max = files.values().map(|f| f.etag).max().unwrap_or(0);
        TraceFs {
            sh: Arc::new(Shared {
                st: Mutex::new(State { files, tag_counter: max, ..Default::default() }),
                yields: AtomicBool::new(false),
                split: AtomicBool::new(false),
                buffered: AtomicBool::new(false),
                tag: Mutex::new(FileSystemTag::Memory),
                real_root: Mutex::new(None),
                yield_filter: Mutex::new(vec![]),
            }),
        }
    }
    pub fn set_tag(&self, t: FileSystemTag) {
        *self.sh.tag.lock().unwrap() = t;
    }
    /// Behave like a local disk whose syncs are observable: keeps empty placeholder files under
    /// `root` (a scratch directory), and registers for interposed fsync calls.
    pub fn local_with_syncs(&self, root: &std::path::Path) {
        self.set_tag(FileSystemTag::Local);
        *self.sh.real_root.lock().unwrap() = Some(root.to_path_buf());
        SYNC_REG
            .lock()
            .unwrap()
            .insert(root.to_string_lossy().to_string(), Arc::downgrade(&self.sh));
        let paths: Vec<String> = self.sh.st.lock().unwrap().files.keys().cloned().collect();
        for p in paths {
            self.placeholder(&p);
        }
    }
    pub fn unregister(root: &std::path::Path) {
        SYNC_REG.lock().unwrap().remove(&root.to_string_lossy().to_string());
    }
    fn placeholder(&self, key: &str) {
        let rr = self.sh.real_root.lock().unwrap().clone();
        if let Some(root) = rr {
            let real = std::path::Path::new("/").join(key);
            if real.starts_with(&root) && key.ends_with(".tonwal") {
                if let Some(d) = real.parent() {
                    let _ = std::fs::create_dir_all(d);
                }
                let _ = std::fs::OpenOptions::new().create(true).append(true).open(&real);
            }
        }
    }
    pub fn set_buffered(&self, on: bool) {
        self.sh.buffered.store(on, Ordering::SeqCst);
    }
    /// Log files grow in two steps that other tasks can observe.
    pub fn set_split(&self, on: bool) {
        self.sh.split.store(on, Ordering::SeqCst);
    }
    pub fn set_yields(&self, on: bool) {
        self.sh.yields.store(on, Ordering::SeqCst);
    }
    pub fn set_yield_filter(&self, f: &[&str]) {
        *self.sh.yield_filter.lock().unwrap() = f.iter().map(|s| s.to_string()).collect();
    }
    pub fn set_fault(&self, n: u64, k: FaultKind) {
        let mut s = self.sh.st.lock().unwrap();
        s.fault = Some((n, k));
    }
    pub fn clear_fault(&self) {
        let mut s = self.sh.st.lock().unwrap();
        s.fault = None;
        s.read_fault = None;
    }
    /// Only count (and fault) mutating operations whose description contains this.
    pub fn set_fault_filter(&self, f: &str) {
        self.sh.st.lock().unwrap().fault_filter = Some(f.to_string());
    }
    pub fn fault_hit(&self) -> Option<String> {
        self.sh.st.lock().unwrap().fault_hit.clone()
    }
    pub fn set_read_fault(&self, n: u64) {
        self.sh.st.lock().unwrap().read_fault = Some(n);
    }
    pub fn op_count(&self) -> u64 {
        self.sh.st.lock().unwrap().ops
    }
    pub fn read_count(&self) -> u64 {
        self.sh.st.lock().unwrap().reads
    }
    pub fn op_names(&self) -> Vec<String> {
        self.sh.st.lock().unwrap().op_names.clone()
    }
    /// A process crash leaves everything with the operating system: count it as synced.
    pub fn survive(&self) {
        for f in self.sh.st.lock().unwrap().files.values_mut() {
            f.synced = f.data.len();
        }
    }
    pub fn mark(&self, m: impl Into<String>) {
        self.sh.st.lock().unwrap().log.push(Ev::Mark(m.into()));
    }
    pub fn log(&self) -> Vec<Ev> {
        self.sh.st.lock().unwrap().log.clone()
    }
    pub fn log_len(&self) -> usize {
        self.sh.st.lock().unwrap().log.len()
    }
    pub fn image(&self) -> Image {
        self.sh.st.lock().unwrap().files.clone()
    }
    pub fn paths(&self) -> Vec<String> {
        self.sh.st.lock().unwrap().files.keys().cloned().collect()
    }
    pub fn read_file(&self, p: &str) -> Option<Vec<u8>> {
        self.sh.st.lock().unwrap().files.get(p).map(|f| f.data.clone())
    }
    pub fn write_file(&self, p: &str, data: Vec<u8>) {
        let mut s = self.sh.st.lock().unwrap();
        s.tag_counter += 1;
        let etag = s.tag_counter;
        let synced = data.len();
        s.files.insert(p.to_string(), FileImg { data, synced, etag, meta: vec![] });
    }
    pub fn remove_file(&self, p: &str) {
        self.sh.st.lock().unwrap().files.remove(p);
    }

    async fn pt(&self, path: &str) {
        if self.sh.yields.load(Ordering::Relaxed) {
            let ok = {
                let f = self.sh.yield_filter.lock().unwrap();
                f.is_empty() || f.iter().any(|x| path.contains(x.as_str()))
            };
            if ok {
                super::exec::yield_now().await;
            }
        }
    }

    /// Account one mutating operation; returns the fault to apply, if any.
    fn mutate(st: &mut State, name: &str) -> Option<FaultKind> {
        if let Some(f) = &st.fault_filter {
            if !name.contains(f.as_str()) {
                return None;
            }
        }
        let n = st.ops;
        st.ops += 1;
        st.op_names.push(name.to_string());
        if let Some((at, k)) = st.fault {
            if n == at || (k == FaultKind::Dead && n > at) {
                if st.fault_hit.is_none() {
                    st.fault_hit = Some(name.to_string());
                }
                return Some(k);
            }
        }
        None
    }
    fn reading(st: &mut State, name: &str) -> Result<(), Error> {
        let n = st.reads;
        st.reads += 1;
        if st.read_fault == Some(n) {
            st.fault_hit = Some(name.to_string());
            return Err(injected(name));
        }
        Ok(())
    }
}

/// Apply a log prefix to an initial image.
pub fn replay_log(initial: &Image, log: &[Ev]) -> Image {
    let mut img = initial.clone();
    let mut tag = img.values().map(|f| f.etag).max().unwrap_or(0);
    for e in log {
        tag += 1;
        apply_ev(&mut img, e, tag);
    }
    img
}
pub fn apply_ev(img: &mut Image, e: &Ev, tag: u64) {
    match e {
        Ev::Create(p) => {
            img.entry(p.clone()).or_insert(FileImg { etag: tag, ..Default::default() });
        }
        Ev::Trunc(p) => {
            if let Some(f) = img.get_mut(p) {
                f.data.clear();
                f.synced = 0;
            }
        }
        Ev::Append(p, d) => {
            img.entry(p.clone()).or_default().data.extend_from_slice(d);
        }
        Ev::Sync(p) => {
            if let Some(f) = img.get_mut(p) {
                f.synced = f.data.len();
            }
        }
        Ev::SetLen(p, n) => {
            if let Some(f) = img.get_mut(p) {
                f.data.truncate(*n);
                f.synced = f.synced.min(*n);
            }
        }
        Ev::Remove(p) => {
            img.remove(p);
        }
        Ev::Put(p, d, m) => {
            img.insert(p.clone(), FileImg { data: d.clone(), synced: d.len(), etag: tag, meta: m.clone() });
        }
        Ev::Mark(_) => {}
    }
}

pub struct TFile {
    fs: TraceFs,
    path: String,
    opts: (bool, bool),
    pend: Vec<u8>,
}
impl TFile {
    fn push(&self, st: &mut State, data: &[u8]) {
        // A removed (unlinked) file swallows writes, as on a POSIX filesystem.
        if st.files.contains_key(&self.path) && !data.is_empty() {
            st.tag_counter += 1;
            let t = st.tag_counter;
            let f = st.files.get_mut(&self.path).unwrap();
            f.data.extend_from_slice(data);
            f.etag = t;
            st.log.push(Ev::Append(self.path.clone(), data.to_vec()));
        }
    }
    fn drain(&mut self) {
        let p = std::mem::take(&mut self.pend);
        let sh = self.fs.sh.clone();
        self.push(&mut sh.st.lock().unwrap(), &p);
    }
}

impl Read for TFile {
    async fn read_exact_at<B: IoBufMut>(&mut self, mut buf: B, pos: u64) -> (Result<(), Error>, B) {
        self.fs.pt(&self.path).await;
        let mut st = self.fs.sh.st.lock().unwrap();
        if let Err(e) = TraceFs::reading(&mut st, &format!("read {}", self.path)) {
            return (Err(e), buf);
        }
        let Some(f) = st.files.get(&self.path) else { return (Err(nf(&self.path)), buf) };
        let pos = pos as usize;
        let len = buf.bytes_init();
        if pos + len > f.data.len() {
            return (Err(IoError::new(ErrorKind::UnexpectedEof, "read past end").into()), buf);
        }
        buf.as_slice_mut().copy_from_slice(&f.data[pos..pos + len]);
        (Ok(()), buf)
    }
    async fn read_to_end_at(&mut self, mut buf: Vec<u8>, pos: u64) -> (Result<(), Error>, Vec<u8>) {
        self.fs.pt(&self.path).await;
        let mut st = self.fs.sh.st.lock().unwrap();
        if let Err(e) = TraceFs::reading(&mut st, &format!("read {}", self.path)) {
            return (Err(e), buf);
        }
        let Some(f) = st.files.get(&self.path) else { return (Err(nf(&self.path)), buf) };
        let pos = pos as usize;
        if pos > f.data.len() {
            return (Err(IoError::new(ErrorKind::UnexpectedEof, "read past end").into()), buf);
        }
        buf.extend_from_slice(&f.data[pos..]);
        (Ok(()), buf)
    }
    async fn size(&self) -> Result<u64, Error> {
        let st = self.fs.sh.st.lock().unwrap();
        st.files.get(&self.path).map(|f| f.data.len() as u64).ok_or_else(|| nf(&self.path))
    }
}

impl Write for TFile {
    async fn write_all<B: IoBuf>(&mut self, buf: B) -> (Result<(), Error>, B) {
        self.fs.pt(&self.path).await;
        if !self.opts.1 {
            return (Err(Error::Unsupported { message: "not opened for write".into() }), buf);
        }
        let rest = {
            let mut st = self.fs.sh.st.lock().unwrap();
            let fault = TraceFs::mutate(&mut st, &format!("write {}", self.path));
            let data = buf.as_slice().to_vec();
            let data = match fault {
                Some(FaultKind::Err) | Some(FaultKind::Dead) => {
                    return (Err(injected(&format!("write {}", self.path))), buf);
                }
                Some(FaultKind::Partial) => data[..data.len() / 2].to_vec(),
                None => data,
            };
            // readers may see the first half
            let mid = if fault.is_none() && self.fs.sh.split.load(Ordering::SeqCst) && self.path.ends_with(".tonwal") { data.len() / 2 } else { data.len() };
            if self.fs.sh.buffered.load(Ordering::SeqCst) {
                self.pend.extend_from_slice(&data);
            } else {
                self.push(&mut st, &data[..mid]);
            }
            if fault.is_some() {
                return (Err(injected(&format!("write {}", self.path))), buf);
            }
            data[mid..].to_vec()
        };
        if !rest.is_empty() && !self.fs.sh.buffered.load(Ordering::SeqCst) {
            super::exec::yield_now().await;
            self.push(&mut self.fs.sh.st.lock().unwrap(), &rest);
        }
        (Ok(()), buf)
    }
    async fn flush(&mut self) -> Result<(), Error> {
        self.drain();
        Ok(())
    }
    async fn close(&mut self) -> Result<(), Error> {
        self.fs.pt(&self.path).await;
        self.drain();
        Ok(())
    }
}

impl FileCommit for TFile {
    async fn commit(&mut self) -> Result<(), Error> {
        if *self.fs.sh.tag.lock().unwrap() == FileSystemTag::Local {
            return Err(Error::Unsupported { message: "commit not applicable for local files".into() });
        }
        Ok(())
    }
}

impl Fs for TraceFs {
    type File = TFile;
    fn file_system(&self) -> FileSystemTag {
        *self.sh.tag.lock().unwrap()
    }
    async fn open_options(&self, path: &Path, mut options: OpenOptions) -> Result<TFile, Error> {
        if !options.read && !options.write {
            options.read = true;
        }
        let key = path.as_ref().to_string();
        self.pt(&key).await;
        {
            let mut st = self.sh.st.lock().unwrap();
            if !st.files.contains_key(&key) {
                if !options.create {
                    return Err(nf(&key));
                }
                match TraceFs::mutate(&mut st, &format!("create {key}")) {
                    Some(FaultKind::Err) | Some(FaultKind::Dead) => return Err(injected(&format!("create {key}"))),
                    x => {
                        st.tag_counter += 1;
                        let etag = st.tag_counter;
                        st.files.insert(key.clone(), FileImg { etag, ..Default::default() });
                        st.log.push(Ev::Create(key.clone()));
                        if x.is_some() {
                            return Err(injected(&format!("create {key}")));
                        }
                    }
                }
            } else if options.truncate {
                let f = TraceFs::mutate(&mut st, &format!("trunc {key}"));
                if matches!(f, Some(FaultKind::Err) | Some(FaultKind::Dead)) {
                    return Err(injected(&format!("trunc {key}")));
                }
                let f0 = st.files.get_mut(&key).unwrap();
                f0.data.clear();
                f0.synced = 0;
                st.log.push(Ev::Trunc(key.clone()));
                if f.is_some() {
                    return Err(injected(&format!("trunc {key}")));
                }
            }
        }
        self.placeholder(&key);
        Ok(TFile { fs: self.clone(), path: key, opts: (options.read, options.write), pend: vec![] })
    }
    async fn create_dir_all(_path: &Path) -> Result<(), Error> {
        Ok(())
    }
    async fn list(
        &self,
        path: &Path,
    ) -> Result<impl Stream<Item = Result<FileMeta, Error>> + Send, Error> {
        let prefix = path.as_ref().to_string();
        self.pt(&prefix).await;
        let mut st = self.sh.st.lock().unwrap();
        TraceFs::reading(&mut st, &format!("list {prefix}"))?;
        let v: Vec<Result<FileMeta, Error>> = st
            .files
            .iter()
            .filter(|(k, _)| {
                prefix.is_empty()
                    || (k.starts_with(&prefix)
                        && (prefix.ends_with('/') || k[prefix.len()..].starts_with('/')))
            })
            .map(|(k, f)| Ok(FileMeta { path: Path::from(k.clone()), size: f.data.len() as u64 }))
            .collect();
        Ok(stream::iter(v))
    }
    async fn remove(&self, path: &Path) -> Result<(), Error> {
        let key = path.as_ref().to_string();
        self.pt(&key).await;
        let mut st = self.sh.st.lock().unwrap();
        let f = TraceFs::mutate(&mut st, &format!("remove {key}"));
        if matches!(f, Some(FaultKind::Err) | Some(FaultKind::Dead)) {
            return Err(injected(&format!("remove {key}")));
        }
        if st.files.remove(&key).is_some() {
            st.log.push(Ev::Remove(key.clone()));
        } else if *self.sh.tag.lock().unwrap() == FileSystemTag::Local {
            return Err(nf(&key));
        }
        if f.is_some() {
            return Err(injected(&format!("remove {key}")));
        }
        Ok(())
    }
    async fn copy(&self, from: &Path, to: &Path) -> Result<(), Error> {
        let (from, to) = (from.as_ref().to_string(), to.as_ref().to_string());
        self.pt(&from).await;
        let mut st = self.sh.st.lock().unwrap();
        if TraceFs::mutate(&mut st, &format!("copy {to}")).is_some() {
            return Err(injected("copy"));
        }
        let Some(d) = st.files.get(&from).map(|f| f.data.clone()) else { return Err(nf(&from)) };
        st.tag_counter += 1;
        let etag = st.tag_counter;
        st.files.insert(to.clone(), FileImg { data: d.clone(), synced: d.len(), etag, meta: vec![] });
        st.log.push(Ev::Put(to, d, vec![]));
        Ok(())
    }
    async fn link(&self, _from: &Path, _to: &Path) -> Result<(), Error> {
        Err(Error::Unsupported { message: "no links".into() })
    }
    async fn exists(&self, path: &Path) -> Result<bool, Error> {
        Ok(self.sh.st.lock().unwrap().files.contains_key(path.as_ref()))
    }
}

impl FsCas for TraceFs {
    fn load_with_tag(
        &self,
        path: &Path,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<Option<(Vec<u8>, String)>, Error>> + '_>> {
        let key = path.as_ref().to_string();
        Box::pin(async move {
            self.pt(&key).await;
            let mut st = self.sh.st.lock().unwrap();
            TraceFs::reading(&mut st, &format!("load {key}"))?;
            Ok(st.files.get(&key).map(|f| (f.data.clone(), format!("{:016x}", f.etag))))
        })
    }
    fn put_conditional(
        &self,
        path: &Path,
        payload: &[u8],
        _content_type: Option<&str>,
        metadata: Option<Vec<(String, String)>>,
        condition: CasCondition,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<String, Error>> + '_>> {
        let key = path.as_ref().to_string();
        let data = payload.to_vec();
        let meta = metadata.unwrap_or_default();
        Box::pin(async move {
            self.pt(&key).await;
            let mut st = self.sh.st.lock().unwrap();
            let f = TraceFs::mutate(&mut st, &format!("put {key}"));
            if matches!(f, Some(FaultKind::Err) | Some(FaultKind::Dead)) {
                return Err(injected(&format!("put {key}")));
            }
            match &condition {
                CasCondition::IfNotExists => {
                    if st.files.contains_key(&key) {
                        return Err(Error::PreconditionFailed);
                    }
                }
                CasCondition::IfMatch(t) => match st.files.get(&key) {
                    Some(f) if format!("{:016x}", f.etag) == *t => {}
                    _ => return Err(Error::PreconditionFailed),
                },
            }
            st.tag_counter += 1;
            let etag = st.tag_counter;
            st.files.insert(key.clone(), FileImg { synced: data.len(), data: data.clone(), etag, meta: meta.clone() });
            st.log.push(Ev::Put(key.clone(), data, meta));
            if f.is_some() {
                return Err(injected(&format!("put {key}")));
            }
            Ok(format!("{etag:016x}"))
        })
    }
}

impl fusio_manifest::ObjectHead for TraceFs {
    fn head_metadata<'a>(
        &'a self,
        path: &'a Path,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<Option<HashMap<String, String>>, Error>> + 'a>>
    {
        let key = path.as_ref().to_string();
        Box::pin(async move {
            let st = self.sh.st.lock().unwrap();
            Ok(st.files.get(&key).map(|f| f.meta.iter().cloned().collect()))
        })
    }
}
