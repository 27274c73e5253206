//! A deterministic, in-memory, fault-injecting stand-in for the part of the
//! `rocksdb` crate that snapchain can reach.
//!
//! * One database = one ordered map, addressed by the directory it was opened
//!   at.  A marker file in that directory ties it to the in-process map, so
//!   removing or renaming the directory behaves as with the real library.
//! * Every committed write batch is one entry of the simulated write-ahead log:
//!   it is atomic.  A *process crash* keeps every committed entry; a *power
//!   loss* drops an arbitrary suffix of the entries that were not synced
//!   (writes here are never synced, as in snapchain), never a middle part.
//! * A single process-wide hook sees every operation before and after it takes
//!   effect and decides: proceed, fail with an I/O error, or crash.
//! * A crash is a panic carrying [`sim::SimCrash`]; from then on every handle
//!   below the crashed node's directory panics in the same way, until the node
//!   is restarted by reopening.

use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::marker::PhantomData;
use std::ops::Bound;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

// ---------------------------------------------------------------- error

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    NotSupported,
    InvalidArgument,
    IOError,
    MergeInProgress,
    Incomplete,
    ShutdownInProgress,
    TimedOut,
    Aborted,
    Busy,
    Expired,
    TryAgain,
    CompactionTooLarge,
    ColumnFamilyDropped,
    Unknown,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
    kind: ErrorKind,
}

impl Error {
    fn io(m: impl Into<String>) -> Self {
        Error {
            message: format!("IO error: {}", m.into()),
            kind: ErrorKind::IOError,
        }
    }
    pub fn into_string(self) -> String {
        self.message
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind.clone()
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.message.fmt(f)
    }
}
impl std::error::Error for Error {}

// ---------------------------------------------------------------- simulation seam

type Map = BTreeMap<Vec<u8>, Arc<[u8]>>;
type Batch = Vec<(Vec<u8>, Option<Arc<[u8]>>)>;

struct Store {
    id: u64,
    map: Mutex<Arc<Map>>,
    /// Undo records of the committed, unsynced log entries (newest last).
    undo: Mutex<Vec<Batch>>,
    /// Row locks held by open pessimistic transactions: key -> txn id
    locks: Mutex<HashMap<Vec<u8>, u64>>,
    open_rw: Mutex<Option<Arc<AtomicBool>>>,
    commits: AtomicU64,
}

impl Store {
    fn new(id: u64, map: Map) -> Arc<Store> {
        Arc::new(Store {
            id,
            map: Mutex::new(Arc::new(map)),
            undo: Mutex::new(vec![]),
            locks: Mutex::new(HashMap::new()),
            open_rw: Mutex::new(None),
            commits: AtomicU64::new(0),
        })
    }
    fn view(&self) -> Arc<Map> {
        lock(&self.map).clone()
    }
    fn apply(&self, batch: &Batch, keep_undo: bool) {
        let mut g = lock(&self.map);
        let m = Arc::make_mut(&mut *g);
        let mut undo = Vec::with_capacity(if keep_undo { batch.len() } else { 0 });
        for (k, v) in batch {
            let old = match v {
                Some(v) => m.insert(k.clone(), v.clone()),
                None => m.remove(k),
            };
            if keep_undo {
                undo.push((k.clone(), old));
            }
        }
        drop(g);
        if keep_undo {
            let mut u = lock(&self.undo);
            u.push(undo);
            if u.len() > 512 {
                u.drain(0..256);
            }
        }
        self.commits.fetch_add(1, Ordering::SeqCst);
    }
    fn lose_tail(&self, n: usize) -> usize {
        let mut u = lock(&self.undo);
        let mut g = lock(&self.map);
        let m = Arc::make_mut(&mut *g);
        let mut lost = 0;
        for _ in 0..n {
            match u.pop() {
                None => break,
                Some(b) => {
                    for (k, old) in b.into_iter().rev() {
                        match old {
                            Some(v) => {
                                m.insert(k, v);
                            }
                            None => {
                                m.remove(&k);
                            }
                        }
                    }
                    lost += 1;
                }
            }
        }
        lost
    }
}

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

struct Registry {
    stores: HashMap<u64, Arc<Store>>,
    handles: Vec<(PathBuf, Arc<AtomicBool>)>,
    next_id: u64,
}

static REG: Mutex<Option<Registry>> = Mutex::new(None);
static UNIQ: AtomicU64 = AtomicU64::new(1);
static HOOK: Mutex<Option<sim::Hook>> = Mutex::new(None);
static HOOK_ON: AtomicBool = AtomicBool::new(false);

fn with_reg<R>(f: impl FnOnce(&mut Registry) -> R) -> R {
    let mut g = lock(&REG);
    let r = g.get_or_insert_with(|| Registry {
        stores: HashMap::new(),
        handles: vec![],
        next_id: 1,
    });
    f(r)
}

const MARKER: &str = "SIMDB";

/// The controls the simulator uses.
pub mod sim {
    use super::*;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Op {
        Open,
        Get,
        Iterate,
        /// A write batch (or a single put/delete) is about to be applied.
        BeforeWrite,
        /// It has just been applied.
        AfterWrite,
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Action {
        Proceed,
        /// Fail the operation with an I/O error, without effect.
        Fail,
        /// The process dies here.
        Crash,
    }

    pub struct Event<'a> {
        pub path: &'a Path,
        pub op: Op,
        pub keys: &'a [&'a [u8]],
    }

    pub type Hook = Box<dyn FnMut(&Event) -> Action + Send>;

    /// Panic payload of a simulated process crash.
    #[derive(Debug, Clone)]
    pub struct SimCrash;

    pub fn set_hook(h: Option<Hook>) {
        HOOK_ON.store(h.is_some(), Ordering::SeqCst);
        *lock(&HOOK) = h;
    }

    /// Forget every database and handle: a new world.
    pub fn reset() {
        set_hook(None);
        let mut g = lock(&REG);
        if let Some(r) = g.as_mut() {
            for (_, dead) in &r.handles {
                dead.store(true, Ordering::SeqCst);
            }
        }
        *g = None;
    }

    /// Kill every open handle below `prefix`: the process that held them is gone.
    pub fn kill(prefix: &Path) {
        with_reg(|r| {
            r.handles.retain(|(p, dead)| {
                if p.starts_with(prefix) {
                    dead.store(true, Ordering::SeqCst);
                    false
                } else {
                    true
                }
            });
        });
    }

    fn find(path: &Path) -> Option<Arc<Store>> {
        let id = read_marker(path)?;
        with_reg(|r| r.stores.get(&id).cloned())
    }

    /// Drop the last `n` unsynced log entries of the database at `path`.
    pub fn lose_tail(path: &Path, n: usize) -> usize {
        find(path).map(|s| s.lose_tail(n)).unwrap_or(0)
    }

    /// Everything committed so far at `path` becomes durable.
    pub fn sync(path: &Path) {
        if let Some(s) = find(path) {
            lock(&s.undo).clear();
        }
    }

    pub fn unsynced(path: &Path) -> usize {
        find(path).map(|s| lock(&s.undo).len()).unwrap_or(0)
    }

    /// The full contents, in key order.
    pub fn dump(path: &Path) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
        find(path).map(|s| {
            s.view()
                .iter()
                .map(|(k, v)| (k.clone(), v.to_vec()))
                .collect()
        })
    }

    pub fn commits(path: &Path) -> u64 {
        find(path).map(|s| s.commits.load(Ordering::SeqCst)).unwrap_or(0)
    }

    /// Overwrite one stored value behind the program's back (bit rot).
    pub fn poke(path: &Path, key: &[u8], value: Option<&[u8]>) {
        if let Some(s) = find(path) {
            let b: Batch = vec![(key.to_vec(), value.map(|v| Arc::from(v)))];
            s.apply(&b, false);
        }
    }

    pub(crate) fn fire(path: &Path, op: Op, keys: &[&[u8]]) -> Result<(), Error> {
        if !HOOK_ON.load(Ordering::Relaxed) {
            return Ok(());
        }
        let act = {
            let mut g = lock(&HOOK);
            match g.as_mut() {
                None => Action::Proceed,
                Some(h) => h(&Event { path, op, keys }),
            }
        };
        match act {
            Action::Proceed => Ok(()),
            Action::Fail => Err(Error::io("injected fault")),
            Action::Crash => std::panic::panic_any(SimCrash),
        }
    }
}

use sim::{fire, Op};

fn read_marker(path: &Path) -> Option<u64> {
    let b = std::fs::read(path.join(MARKER)).ok()?;
    if b.len() >= 16 && &b[0..8] == b"SIMDBID1" {
        Some(u64::from_be_bytes(b[8..16].try_into().unwrap()))
    } else {
        None
    }
}

fn read_image(path: &Path) -> Option<Map> {
    let b = std::fs::read(path.join(MARKER)).ok()?;
    if b.len() < 16 || &b[0..8] != b"SIMDBIMG" {
        return None;
    }
    let n = u64::from_be_bytes(b[8..16].try_into().unwrap());
    let mut m = Map::new();
    let mut i = 16usize;
    for _ in 0..n {
        let kl = u32::from_be_bytes(b.get(i..i + 4)?.try_into().unwrap()) as usize;
        let vl = u32::from_be_bytes(b.get(i + 4..i + 8)?.try_into().unwrap()) as usize;
        i += 8;
        let k = b.get(i..i + kl)?.to_vec();
        let v: Arc<[u8]> = Arc::from(b.get(i + kl..i + kl + vl)?);
        i += kl + vl;
        m.insert(k, v);
    }
    Some(m)
}

fn write_image(path: &Path, m: &Map) {
    let mut b = Vec::new();
    b.extend_from_slice(b"SIMDBIMG");
    b.extend_from_slice(&(m.len() as u64).to_be_bytes());
    for (k, v) in m {
        b.extend_from_slice(&(k.len() as u32).to_be_bytes());
        b.extend_from_slice(&(v.len() as u32).to_be_bytes());
        b.extend_from_slice(k);
        b.extend_from_slice(v);
    }
    let _ = std::fs::write(path.join(MARKER), b);
}

fn abs(p: &Path) -> PathBuf {
    if p.is_absolute() {
        p.to_path_buf()
    } else {
        std::env::current_dir().unwrap_or_default().join(p)
    }
}

fn attach(path: &Path, create: bool, read_only: bool) -> Result<Handle, Error> {
    let path = abs(path);
    fire(&path, Op::Open, &[])?;
    let store = match read_marker(&path) {
        Some(id) => with_reg(|r| r.stores.get(&id).cloned()),
        None => None,
    };
    let store = match store {
        Some(s) => s,
        None => {
            let map = match read_image(&path) {
                Some(m) => m,
                None => {
                    if path.join(MARKER).exists() && read_marker(&path).is_none() {
                        return Err(Error {
                            message: format!("Corruption: {}", path.display()),
                            kind: ErrorKind::Corruption,
                        });
                    }
                    if !create {
                        return Err(Error {
                            message: format!(
                                "Invalid argument: {} does not exist (create_if_missing is false)",
                                path.display()
                            ),
                            kind: ErrorKind::InvalidArgument,
                        });
                    }
                    Map::new()
                }
            };
            std::fs::create_dir_all(&path).map_err(|e| Error::io(e.to_string()))?;
            let s = with_reg(|r| {
                let id = r.next_id;
                r.next_id += 1;
                let s = Store::new(id, map);
                r.stores.insert(id, s.clone());
                s
            });
            let mut b = b"SIMDBID1".to_vec();
            b.extend_from_slice(&s.id.to_be_bytes());
            std::fs::write(path.join(MARKER), b).map_err(|e| Error::io(e.to_string()))?;
            s
        }
    };
    let dead = Arc::new(AtomicBool::new(false));
    if !read_only {
        let mut g = lock(&store.open_rw);
        if let Some(prev) = g.as_ref() {
            if !prev.load(Ordering::SeqCst) {
                return Err(Error::io(format!(
                    "lock hold by current process: {}/LOCK: No locks available",
                    path.display()
                )));
            }
        }
        *g = Some(dead.clone());
        drop(g);
        lock(&store.locks).clear();
    }
    with_reg(|r| r.handles.push((path.clone(), dead.clone())));
    Ok(Handle {
        store,
        path,
        dead,
        read_only,
        write_image_on_drop: false,
    })
}

struct Handle {
    store: Arc<Store>,
    path: PathBuf,
    dead: Arc<AtomicBool>,
    read_only: bool,
    write_image_on_drop: bool,
}

impl Handle {
    fn check(&self) {
        if self.dead.load(Ordering::Relaxed) && !std::thread::panicking() {
            std::panic::panic_any(sim::SimCrash);
        }
    }
    fn get(&self, k: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        self.check();
        fire(&self.path, Op::Get, &[k])?;
        Ok(lock(&self.store.map).get(k).map(|v| v.to_vec()))
    }
    fn write(&self, b: Batch) -> Result<(), Error> {
        self.check();
        if HOOK_ON.load(Ordering::Relaxed) {
            let keys: Vec<&[u8]> = b.iter().map(|(k, _)| k.as_slice()).collect();
            fire(&self.path, Op::BeforeWrite, &keys)?;
            self.store.apply(&b, true);
            // after the batch is in the log an error can no longer be reported as "nothing written"
            let _ = fire(&self.path, Op::AfterWrite, &keys);
        } else {
            self.store.apply(&b, true);
        }
        Ok(())
    }
}

impl Drop for Handle {
    fn drop(&mut self) {
        if self.write_image_on_drop && !self.dead.load(Ordering::SeqCst) && self.path.exists() {
            write_image(&self.path, &self.store.view());
            let id = self.store.id;
            with_reg(|r| {
                r.stores.remove(&id);
            });
        }
        self.dead.store(true, Ordering::SeqCst);
        let d = self.dead.clone();
        if let Ok(mut g) = REG.try_lock() {
            if let Some(r) = g.as_mut() {
                r.handles.retain(|(_, x)| !Arc::ptr_eq(x, &d));
            }
        }
    }
}

// ---------------------------------------------------------------- options

macro_rules! opts {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Debug, Default)]
        pub struct $name { _p: () }
        impl $name {
            $( pub fn $f(&mut self, _v: $t) {} )*
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Bz2,
    Lz4,
    Lz4hc,
    Zstd,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DBCompactionStyle {
    Level,
    Universal,
    Fifo,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DBRecoveryMode {
    TolerateCorruptedTailRecords,
    AbsoluteConsistency,
    PointInTime,
    SkipAnyCorruptedRecord,
}

#[derive(Clone, Debug, Default)]
pub struct Options {
    create: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, c: bool) {
        self.create = c;
    }
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn set_error_if_exists(&mut self, _: bool) {}
    pub fn set_paranoid_checks(&mut self, _: bool) {}
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn set_db_write_buffer_size(&mut self, _: usize) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn optimize_level_style_compaction(&mut self, _: usize) {}
    pub fn set_max_write_buffer_number(&mut self, _: i32) {}
    pub fn set_min_write_buffer_number(&mut self, _: i32) {}
    pub fn set_min_write_buffer_number_to_merge(&mut self, _: i32) {}
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_bottommost_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_block_based_table_factory(&mut self, _: &BlockBasedOptions) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn set_max_background_jobs(&mut self, _: i32) {}
    pub fn set_max_subcompactions(&mut self, _: u32) {}
    pub fn set_use_fsync(&mut self, _: bool) {}
    pub fn set_bytes_per_sync(&mut self, _: u64) {}
    pub fn set_wal_bytes_per_sync(&mut self, _: u64) {}
    pub fn set_max_total_wal_size(&mut self, _: u64) {}
    pub fn set_keep_log_file_num(&mut self, _: usize) {}
    pub fn set_log_level(&mut self, _: i32) {}
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
    pub fn set_target_file_size_base(&mut self, _: u64) {}
    pub fn set_level_zero_file_num_compaction_trigger(&mut self, _: i32) {}
    pub fn set_level_zero_slowdown_writes_trigger(&mut self, _: i32) {}
    pub fn set_level_zero_stop_writes_trigger(&mut self, _: i32) {}
    pub fn set_compaction_style(&mut self, _: DBCompactionStyle) {}
    pub fn set_wal_recovery_mode(&mut self, _: DBRecoveryMode) {}
    pub fn set_row_cache(&mut self, _: &Cache) {}
    pub fn enable_statistics(&mut self) {}
    pub fn set_allow_mmap_reads(&mut self, _: bool) {}
}

opts!(BlockBasedOptions {
    set_cache_index_and_filter_blocks: bool,
    set_pin_l0_filter_and_index_blocks_in_cache: bool,
    set_pin_top_level_index_and_filter: bool,
    set_block_size: usize,
    set_format_version: i32,
    set_whole_key_filtering: bool,
});
impl BlockBasedOptions {
    pub fn set_block_cache(&mut self, _: &Cache) {}
    pub fn set_bloom_filter(&mut self, _: f64, _: bool) {}
    pub fn disable_cache(&mut self) {}
}

opts!(TransactionDBOptions {
    set_default_lock_timeout: i64,
    set_txn_lock_timeout: i64,
    set_max_num_locks: i64,
    set_num_stripes: usize,
});
impl TransactionDBOptions {
    pub fn new() -> Self {
        Self::default()
    }
}
opts!(TransactionOptions {
    set_skip_prepare: bool,
    set_snapshot: bool,
    set_deadlock_detect: bool,
    set_lock_timeout: i64,
    set_expiration: i64,
    set_deadlock_detect_depth: i64,
    set_max_write_batch_size: usize,
});
impl TransactionOptions {
    pub fn new() -> Self {
        Self::default()
    }
}
opts!(WriteOptions {
    set_sync: bool,
    disable_wal: bool,
    set_no_slowdown: bool,
    set_low_pri: bool,
    set_ignore_missing_column_families: bool,
});
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
}
opts!(FlushOptions { set_wait: bool });
opts!(CompactOptions {
    set_exclusive_manual_compaction: bool,
    set_change_level: bool,
});

#[derive(Clone)]
pub struct Cache(usize);
impl Cache {
    pub fn new_lru_cache(n: usize) -> Cache {
        Cache(n)
    }
    pub fn new_hyper_clock_cache(n: usize, _: usize) -> Cache {
        Cache(n)
    }
    pub fn get_usage(&self) -> usize {
        self.0.min(4096)
    }
    pub fn get_pinned_usage(&self) -> usize {
        0
    }
    pub fn set_capacity(&mut self, n: usize) {
        self.0 = n;
    }
}

#[derive(Clone, Debug, Default)]
pub struct ReadOptions {
    lower: Option<Vec<u8>>,
    upper: Option<Vec<u8>>,
}
impl ReadOptions {
    pub fn set_iterate_lower_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.lower = Some(k.into());
    }
    pub fn set_iterate_upper_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.upper = Some(k.into());
    }
    pub fn fill_cache(&mut self, _: bool) {}
    pub fn set_prefix_same_as_start(&mut self, _: bool) {}
    pub fn set_total_order_seek(&mut self, _: bool) {}
    pub fn set_verify_checksums(&mut self, _: bool) {}
    pub fn set_readahead_size(&mut self, _: usize) {}
    pub fn set_async_io(&mut self, _: bool) {}
    pub fn set_tailing(&mut self, _: bool) {}
    pub fn set_pin_data(&mut self, _: bool) {}
}

pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

// ---------------------------------------------------------------- iterators

pub trait DBAccess {}
impl DBAccess for TransactionDB {}
impl DBAccess for DB {}

pub struct DBRawIteratorWithThreadMode<'a, D> {
    view: Arc<Map>,
    opts: ReadOptions,
    cur: Option<(Vec<u8>, Arc<[u8]>)>,
    status: Result<(), Error>,
    _p: PhantomData<&'a D>,
}
pub type DBRawIterator<'a> = DBRawIteratorWithThreadMode<'a, DB>;

impl<'a, D> DBRawIteratorWithThreadMode<'a, D> {
    fn new(view: Arc<Map>, opts: ReadOptions, status: Result<(), Error>) -> Self {
        Self {
            view,
            opts,
            cur: None,
            status,
            _p: PhantomData,
        }
    }
    fn fwd(&mut self, from: Bound<Vec<u8>>) {
        if self.status.is_err() {
            self.cur = None;
            return;
        }
        let lo = match (&from, &self.opts.lower) {
            (Bound::Unbounded, None) => Bound::Unbounded,
            (Bound::Unbounded, Some(l)) => Bound::Included(l.clone()),
            (Bound::Included(k), Some(l)) if l > k => Bound::Included(l.clone()),
            (Bound::Excluded(k), Some(l)) if l > k => Bound::Included(l.clone()),
            (b, _) => b.clone(),
        };
        let first = self
            .view
            .range::<Vec<u8>, _>((lo.as_ref(), Bound::Unbounded))
            .next()
            .map(|(k, v)| (k.clone(), v.clone()));
        self.cur = match first {
            Some((k, v)) if self.opts.upper.as_ref().map_or(true, |u| &k < u) => Some((k, v)),
            _ => None,
        };
    }
    fn back(&mut self, from: Bound<Vec<u8>>) {
        if self.status.is_err() {
            self.cur = None;
            return;
        }
        let hi = match (&from, &self.opts.upper) {
            (Bound::Unbounded, None) => Bound::Unbounded,
            (Bound::Unbounded, Some(u)) => Bound::Excluded(u.clone()),
            (Bound::Included(k), Some(u)) if u <= k => Bound::Excluded(u.clone()),
            (Bound::Excluded(k), Some(u)) if u < k => Bound::Excluded(u.clone()),
            (b, _) => b.clone(),
        };
        let last = self
            .view
            .range::<Vec<u8>, _>((Bound::Unbounded, hi.as_ref()))
            .next_back()
            .map(|(k, v)| (k.clone(), v.clone()));
        self.cur = match last {
            Some((k, v)) if self.opts.lower.as_ref().map_or(true, |l| &k >= l) => Some((k, v)),
            _ => None,
        };
    }
    pub fn seek_to_first(&mut self) {
        self.fwd(Bound::Unbounded)
    }
    pub fn seek_to_last(&mut self) {
        self.back(Bound::Unbounded)
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) {
        self.fwd(Bound::Included(k.as_ref().to_vec()))
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, k: K) {
        self.back(Bound::Included(k.as_ref().to_vec()))
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.fwd(Bound::Excluded(k))
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.back(Bound::Excluded(k))
        }
    }
    pub fn valid(&self) -> bool {
        self.cur.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        self.status.clone()
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(k, _)| k.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(_, v)| &v[..])
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.cur.as_ref().map(|(k, v)| (k.as_slice(), &v[..]))
    }
}

pub struct DBIteratorWithThreadMode<'a, D> {
    raw: DBRawIteratorWithThreadMode<'a, D>,
    forward: bool,
    failed: Option<Error>,
}
pub type DBIterator<'a> = DBIteratorWithThreadMode<'a, DB>;
pub type KVBytes = (Box<[u8]>, Box<[u8]>);

impl<'a, D> DBIteratorWithThreadMode<'a, D> {
    fn new(mut raw: DBRawIteratorWithThreadMode<'a, D>, mode: IteratorMode) -> Self {
        let forward = match mode {
            IteratorMode::Start => {
                raw.seek_to_first();
                true
            }
            IteratorMode::End => {
                raw.seek_to_last();
                false
            }
            IteratorMode::From(k, Direction::Forward) => {
                raw.seek(k);
                true
            }
            IteratorMode::From(k, Direction::Reverse) => {
                raw.seek_for_prev(k);
                false
            }
        };
        let failed = raw.status().err();
        Self {
            raw,
            forward,
            failed,
        }
    }
}
impl<'a, D> Iterator for DBIteratorWithThreadMode<'a, D> {
    type Item = Result<KVBytes, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        if let Some(e) = self.failed.take() {
            return Some(Err(e));
        }
        let out = self
            .raw
            .item()
            .map(|(k, v)| (Box::<[u8]>::from(k), Box::<[u8]>::from(v)))?;
        if self.forward {
            self.raw.next()
        } else {
            self.raw.prev()
        }
        Some(Ok(out))
    }
}

pub struct SnapshotWithThreadMode<'a, D> {
    view: Arc<Map>,
    _p: PhantomData<&'a D>,
}
pub type Snapshot<'a> = SnapshotWithThreadMode<'a, DB>;
impl<'a, D> SnapshotWithThreadMode<'a, D> {
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.view.get(k.as_ref()).map(|v| v.to_vec()))
    }
    pub fn iterator(&self, mode: IteratorMode) -> DBIteratorWithThreadMode<'_, D> {
        self.iterator_opt(mode, ReadOptions::default())
    }
    pub fn iterator_opt(
        &self,
        mode: IteratorMode,
        opts: ReadOptions,
    ) -> DBIteratorWithThreadMode<'_, D> {
        DBIteratorWithThreadMode::new(
            DBRawIteratorWithThreadMode::new(self.view.clone(), opts, Ok(())),
            mode,
        )
    }
    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, D> {
        self.raw_iterator_opt(ReadOptions::default())
    }
    pub fn raw_iterator_opt(&self, opts: ReadOptions) -> DBRawIteratorWithThreadMode<'_, D> {
        DBRawIteratorWithThreadMode::new(self.view.clone(), opts, Ok(()))
    }
}

// ---------------------------------------------------------------- write batch

pub struct WriteBatchWithTransaction<const T: bool> {
    b: Batch,
}
pub type WriteBatch = WriteBatchWithTransaction<false>;
impl<const T: bool> Default for WriteBatchWithTransaction<T> {
    fn default() -> Self {
        Self { b: vec![] }
    }
}
impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.b
            .push((k.as_ref().to_vec(), Some(Arc::from(v.as_ref()))));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.b.push((k.as_ref().to_vec(), None));
    }
    pub fn len(&self) -> usize {
        self.b.len()
    }
    pub fn is_empty(&self) -> bool {
        self.b.is_empty()
    }
    pub fn clear(&mut self) {
        self.b.clear()
    }
    pub fn size_in_bytes(&self) -> usize {
        self.b
            .iter()
            .map(|(k, v)| k.len() + v.as_ref().map_or(0, |v| v.len()) + 12)
            .sum()
    }
}

// ---------------------------------------------------------------- databases

macro_rules! common_db {
    ($ty:ident) => {
        impl $ty {
            pub fn path(&self) -> &Path {
                &self.h.path
            }
            pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
                self.h.get(k.as_ref())
            }
            pub fn get_opt<K: AsRef<[u8]>>(
                &self,
                k: K,
                _o: &ReadOptions,
            ) -> Result<Option<Vec<u8>>, Error> {
                self.h.get(k.as_ref())
            }
            pub fn get_pinned<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
                self.h.get(k.as_ref())
            }
            pub fn multi_get<K, I>(&self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>>
            where
                K: AsRef<[u8]>,
                I: IntoIterator<Item = K>,
            {
                keys.into_iter().map(|k| self.h.get(k.as_ref())).collect()
            }
            pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
                if self.h.read_only {
                    return Err(ro());
                }
                self.locked(k.as_ref())?;
                self.h
                    .write(vec![(k.as_ref().to_vec(), Some(Arc::from(v.as_ref())))])
            }
            pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(
                &self,
                k: K,
                v: V,
                _o: &WriteOptions,
            ) -> Result<(), Error> {
                self.put(k, v)
            }
            pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
                if self.h.read_only {
                    return Err(ro());
                }
                self.locked(k.as_ref())?;
                self.h.write(vec![(k.as_ref().to_vec(), None)])
            }
            pub fn delete_opt<K: AsRef<[u8]>>(&self, k: K, _o: &WriteOptions) -> Result<(), Error> {
                self.delete(k)
            }
            fn locked(&self, k: &[u8]) -> Result<(), Error> {
                if lock(&self.h.store.locks).contains_key(k) {
                    return Err(Error {
                        message: "Operation timed out: Timeout waiting to lock key".into(),
                        kind: ErrorKind::TimedOut,
                    });
                }
                Ok(())
            }
            pub fn write_opt<const T: bool>(
                &self,
                b: WriteBatchWithTransaction<T>,
                _o: &WriteOptions,
            ) -> Result<(), Error> {
                if self.h.read_only {
                    return Err(ro());
                }
                self.h.write(b.b)
            }
            pub fn write<const T: bool>(
                &self,
                b: WriteBatchWithTransaction<T>,
            ) -> Result<(), Error> {
                self.write_opt(b, &WriteOptions::default())
            }
            pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
                self.raw_iterator_opt(ReadOptions::default())
            }
            pub fn raw_iterator_opt(
                &self,
                o: ReadOptions,
            ) -> DBRawIteratorWithThreadMode<'_, Self> {
                self.h.check();
                let st = fire(&self.h.path, Op::Iterate, &[]);
                DBRawIteratorWithThreadMode::new(self.h.store.view(), o, st)
            }
            pub fn iterator(&self, mode: IteratorMode) -> DBIteratorWithThreadMode<'_, Self> {
                self.iterator_opt(mode, ReadOptions::default())
            }
            pub fn iterator_opt(
                &self,
                mode: IteratorMode,
                o: ReadOptions,
            ) -> DBIteratorWithThreadMode<'_, Self> {
                DBIteratorWithThreadMode::new(self.raw_iterator_opt(o), mode)
            }
            pub fn prefix_iterator<P: AsRef<[u8]>>(
                &self,
                p: P,
            ) -> DBIteratorWithThreadMode<'_, Self> {
                self.iterator(IteratorMode::From(p.as_ref(), Direction::Forward))
            }
            pub fn snapshot(&self) -> SnapshotWithThreadMode<'_, Self> {
                self.h.check();
                SnapshotWithThreadMode {
                    view: self.h.store.view(),
                    _p: PhantomData,
                }
            }
            pub fn flush(&self) -> Result<(), Error> {
                self.h.check();
                lock(&self.h.store.undo).clear();
                Ok(())
            }
            pub fn flush_wal(&self, sync: bool) -> Result<(), Error> {
                self.h.check();
                if sync {
                    lock(&self.h.store.undo).clear();
                }
                Ok(())
            }
            pub fn property_int_value(&self, _n: &str) -> Result<Option<u64>, Error> {
                Ok(Some(0))
            }
            pub fn property_value(&self, _n: &str) -> Result<Option<String>, Error> {
                Ok(None)
            }
        }
    };
}

fn ro() -> Error {
    Error {
        message: "Not implemented: Not supported operation in read only mode.".into(),
        kind: ErrorKind::NotSupported,
    }
}

#[derive(Debug)]
pub struct SingleThreaded;
#[derive(Debug)]
pub struct MultiThreaded;

pub struct TransactionDB {
    h: Handle,
}
common_db!(TransactionDB);

pub struct DB {
    h: Handle,
}
common_db!(DB);

impl DB {
    pub fn open<P: AsRef<Path>>(o: &Options, p: P) -> Result<DB, Error> {
        let mut h = attach(p.as_ref(), o.create, false)?;
        h.write_image_on_drop = true;
        Ok(DB { h })
    }
    pub fn open_default<P: AsRef<Path>>(p: P) -> Result<DB, Error> {
        Self::open(&Options { create: true }, p)
    }
    pub fn open_for_read_only<P: AsRef<Path>>(
        _o: &Options,
        p: P,
        _err_if_log_exists: bool,
    ) -> Result<DB, Error> {
        let mut h = attach(p.as_ref(), false, true)?;
        // a read-only open sees the state at the time it was opened
        h.store = Store::new(0, (*h.store.view()).clone());
        Ok(DB { h })
    }
    pub fn destroy<P: AsRef<Path>>(_o: &Options, p: P) -> Result<(), Error> {
        let p = abs(p.as_ref());
        if let Some(id) = read_marker(&p) {
            with_reg(|r| r.stores.remove(&id));
        }
        let _ = std::fs::remove_file(p.join(MARKER));
        Ok(())
    }
}

impl TransactionDB {
    pub fn open<P: AsRef<Path>>(
        o: &Options,
        _t: &TransactionDBOptions,
        p: P,
    ) -> Result<TransactionDB, Error> {
        Ok(TransactionDB {
            h: attach(p.as_ref(), o.create, false)?,
        })
    }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB> {
        self.h.check();
        Transaction {
            db: self,
            id: UNIQ.fetch_add(1, Ordering::SeqCst),
            b: Mutex::new(BTreeMap::new()),
            held: Mutex::new(vec![]),
            _p: PhantomData,
        }
    }
    pub fn transaction_opt(
        &self,
        _w: &WriteOptions,
        _t: &TransactionOptions,
    ) -> Transaction<'_, TransactionDB> {
        self.transaction()
    }
}

pub struct Transaction<'db, D> {
    db: &'db TransactionDB,
    id: u64,
    b: Mutex<BTreeMap<Vec<u8>, Option<Arc<[u8]>>>>,
    held: Mutex<Vec<Vec<u8>>>,
    _p: PhantomData<D>,
}

impl<'db, D> Transaction<'db, D> {
    fn acquire(&self, k: &[u8]) -> Result<(), Error> {
        let mut l = lock(&self.db.h.store.locks);
        match l.get(k) {
            Some(o) if *o == self.id => Ok(()),
            Some(_) => Err(Error {
                message: "Operation timed out: Timeout waiting to lock key".into(),
                kind: ErrorKind::TimedOut,
            }),
            None => {
                l.insert(k.to_vec(), self.id);
                lock(&self.held).push(k.to_vec());
                Ok(())
            }
        }
    }
    fn release(&self) {
        let mut l = lock(&self.db.h.store.locks);
        for k in lock(&self.held).drain(..) {
            if l.get(&k) == Some(&self.id) {
                l.remove(&k);
            }
        }
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.db.h.check();
        self.acquire(k.as_ref())?;
        lock(&self.b).insert(k.as_ref().to_vec(), Some(Arc::from(v.as_ref())));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.db.h.check();
        self.acquire(k.as_ref())?;
        lock(&self.b).insert(k.as_ref().to_vec(), None);
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        if let Some(v) = lock(&self.b).get(k.as_ref()) {
            return Ok(v.as_ref().map(|v| v.to_vec()));
        }
        self.db.h.get(k.as_ref())
    }
    pub fn get_for_update<K: AsRef<[u8]>>(
        &self,
        k: K,
        _exclusive: bool,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.db.h.check();
        self.acquire(k.as_ref())?;
        self.get(k)
    }
    pub fn commit(self) -> Result<(), Error> {
        let b: Batch = std::mem::take(&mut *lock(&self.b)).into_iter().collect();
        let r = self.db.h.write(b);
        self.release();
        r
    }
    pub fn rollback(&self) -> Result<(), Error> {
        lock(&self.b).clear();
        self.release();
        Ok(())
    }
}
impl<'db, D> Drop for Transaction<'db, D> {
    fn drop(&mut self) {
        self.release();
    }
}
