//! In-memory file system with a durability model.
//!
//! `cur` is what running programs see (the page cache). `base` plus a subset of `log` is what a
//! power loss leaves behind: metadata operations survive as an ordered prefix (journalled file
//! system), data writes survive independently, torn or not at all, unless an fsync committed them.
use std::collections::BTreeMap;

pub type Ino = usize;
pub const ROOT: Ino = 1;

#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<String, Ino>),
    Symlink(String),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub mtime: i128,
}

#[derive(Clone, Debug)]
pub enum LogOp {
    New { ino: Ino, inode: Inode },
    Link { dir: Ino, name: String, ino: Ino },
    Unlink { dir: Ino, name: String },
    Rename { fdir: Ino, fname: String, tdir: Ino, tname: String },
    Trunc { ino: Ino, len: usize },
    Data { ino: Ino, off: usize, bytes: Vec<u8> },
    Mode { ino: Ino, mode: u32 },
}

type Image = BTreeMap<Ino, Inode>;

#[derive(Clone)]
pub struct Vfs {
    pub cur: Image,
    base: Image,
    log: Vec<LogOp>,
    next: Ino,
    pub capacity: Option<usize>,
    pub used: usize,
}

pub type R<T> = Result<T, i32>;

fn apply(img: &mut Image, op: &LogOp) {
    match op {
        LogOp::New { ino, inode } => {
            img.entry(*ino).or_insert_with(|| inode.clone());
        }
        LogOp::Link { dir, name, ino } => {
            if let Some(Inode { node: Node::Dir(d), .. }) = img.get_mut(dir) {
                d.insert(name.clone(), *ino);
            }
        }
        LogOp::Unlink { dir, name } => {
            if let Some(Inode { node: Node::Dir(d), .. }) = img.get_mut(dir) {
                d.remove(name);
            }
        }
        LogOp::Rename { fdir, fname, tdir, tname } => {
            let ino = match img.get_mut(fdir) {
                Some(Inode { node: Node::Dir(d), .. }) => d.remove(fname),
                _ => None,
            };
            if let (Some(i), Some(Inode { node: Node::Dir(d), .. })) = (ino, img.get_mut(tdir)) {
                d.insert(tname.clone(), i);
            }
        }
        LogOp::Trunc { ino, len } => {
            if let Some(Inode { node: Node::File(f), .. }) = img.get_mut(ino) {
                f.resize(*len, 0);
            }
        }
        LogOp::Data { ino, off, bytes } => {
            if let Some(Inode { node: Node::File(f), .. }) = img.get_mut(ino) {
                if f.len() < off + bytes.len() {
                    f.resize(off + bytes.len(), 0);
                }
                f[*off..off + bytes.len()].copy_from_slice(bytes);
            }
        }
        LogOp::Mode { ino, mode } => {
            if let Some(i) = img.get_mut(ino) {
                i.mode = *mode;
            }
        }
    }
}

impl Vfs {
    pub fn new() -> Self {
        let mut cur = BTreeMap::new();
        cur.insert(ROOT, Inode { node: Node::Dir(BTreeMap::new()), mode: 0o755, mtime: 0 });
        Vfs { base: cur.clone(), cur, log: vec![], next: ROOT + 1, capacity: None, used: 0 }
    }

    fn rec(&mut self, op: LogOp) {
        apply(&mut self.cur, &op);
        self.log.push(op);
    }

    pub fn split(path: &str) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for c in path.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c.to_string()),
            }
        }
        out
    }

    /// Resolve an absolute path, following symbolic links.
    pub fn lookup(&self, path: &str, follow: bool) -> R<Ino> {
        self.lookup_depth(path, follow, 0)
    }
    fn lookup_depth(&self, path: &str, follow: bool, depth: usize) -> R<Ino> {
        if depth > 20 {
            return Err(libc::ELOOP);
        }
        let parts = Self::split(path);
        let mut ino = ROOT;
        for (i, p) in parts.iter().enumerate() {
            let node = &self.cur.get(&ino).ok_or(libc::ENOENT)?.node;
            let d = match node {
                Node::Dir(d) => d,
                _ => return Err(libc::ENOTDIR),
            };
            let next = *d.get(p).ok_or(libc::ENOENT)?;
            let last = i + 1 == parts.len();
            if let Some(Inode { node: Node::Symlink(t), .. }) = self.cur.get(&next) {
                if !last || follow {
                    let basep = format!("/{}", parts[..i].join("/"));
                    let tgt =
                        if t.starts_with('/') { t.clone() } else { format!("{basep}/{t}") };
                    let rest = parts[i + 1..].join("/");
                    return self.lookup_depth(&format!("{tgt}/{rest}"), follow, depth + 1);
                }
            }
            ino = next;
        }
        Ok(ino)
    }

    pub fn parent(&self, path: &str) -> R<(Ino, String)> {
        let mut parts = Self::split(path);
        let name = parts.pop().ok_or(libc::EEXIST)?;
        let dir = self.lookup(&format!("/{}", parts.join("/")), true)?;
        match &self.cur[&dir].node {
            Node::Dir(_) => Ok((dir, name)),
            _ => Err(libc::ENOTDIR),
        }
    }

    pub fn is_dir(&self, ino: Ino) -> bool {
        matches!(self.cur.get(&ino).map(|i| &i.node), Some(Node::Dir(_)))
    }
    pub fn dir(&self, ino: Ino) -> R<&BTreeMap<String, Ino>> {
        match self.cur.get(&ino).map(|i| &i.node) {
            Some(Node::Dir(d)) => Ok(d),
            Some(_) => Err(libc::ENOTDIR),
            None => Err(libc::ENOENT),
        }
    }
    pub fn file(&self, ino: Ino) -> R<&Vec<u8>> {
        match self.cur.get(&ino).map(|i| &i.node) {
            Some(Node::File(f)) => Ok(f),
            Some(Node::Dir(_)) => Err(libc::EISDIR),
            _ => Err(libc::ENOENT),
        }
    }
    fn touch(&mut self, ino: Ino, t: i128) {
        if let Some(i) = self.cur.get_mut(&ino) {
            i.mtime = t;
        }
    }

    pub fn create(&mut self, path: &str, node: Node, mode: u32, t: i128) -> R<Ino> {
        let (dir, name) = self.parent(path)?;
        if self.dir(dir)?.contains_key(&name) {
            return Err(libc::EEXIST);
        }
        let ino = self.next;
        self.next += 1;
        self.rec(LogOp::New { ino, inode: Inode { node, mode, mtime: t } });
        self.rec(LogOp::Link { dir, name, ino });
        self.touch(dir, t);
        Ok(ino)
    }

    pub fn trunc(&mut self, ino: Ino, len: usize, t: i128) -> R<()> {
        let old = self.file(ino)?.len();
        self.used = self.used - old.min(self.used) + len;
        // data past the new end never reaches the disk
        for op in self.log.iter_mut() {
            if let LogOp::Data { ino: i, off, bytes } = op {
                if *i == ino && *off + bytes.len() > len {
                    bytes.truncate(len.saturating_sub(*off));
                }
            }
        }
        self.rec(LogOp::Trunc { ino, len });
        self.touch(ino, t);
        Ok(())
    }

    /// Write as much as fits; returns the number of bytes written.
    pub fn write(&mut self, ino: Ino, off: usize, bytes: &[u8], t: i128) -> R<usize> {
        let len = self.file(ino)?.len();
        let grow = (off + bytes.len()).saturating_sub(len);
        let mut n = bytes.len();
        if let Some(cap) = self.capacity {
            let room = cap.saturating_sub(self.used);
            if grow > room {
                n = bytes.len() - (grow - room).min(bytes.len());
                if n == 0 && !bytes.is_empty() {
                    return Err(libc::ENOSPC);
                }
            }
        }
        self.used += (off + n).saturating_sub(len);
        self.rec(LogOp::Data { ino, off, bytes: bytes[..n].to_vec() });
        self.touch(ino, t);
        Ok(n)
    }

    pub fn link(&mut self, ino: Ino, path: &str, t: i128) -> R<()> {
        let (dir, name) = self.parent(path)?;
        if self.dir(dir)?.contains_key(&name) {
            return Err(libc::EEXIST);
        }
        self.rec(LogOp::Link { dir, name, ino });
        self.touch(dir, t);
        Ok(())
    }

    pub fn unlink(&mut self, path: &str, rmdir: bool, t: i128) -> R<()> {
        let (dir, name) = self.parent(path)?;
        let ino = *self.dir(dir)?.get(&name).ok_or(libc::ENOENT)?;
        if self.is_dir(ino) {
            if !rmdir {
                return Err(libc::EISDIR);
            }
            if !self.dir(ino)?.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
        } else if rmdir {
            return Err(libc::ENOTDIR);
        } else if let Ok(f) = self.file(ino) {
            self.used = self.used.saturating_sub(f.len());
        }
        self.rec(LogOp::Unlink { dir, name });
        self.touch(dir, t);
        Ok(())
    }

    pub fn rename(&mut self, from: &str, to: &str, noreplace: bool, t: i128) -> R<()> {
        let (fdir, fname) = self.parent(from)?;
        let ino = *self.dir(fdir)?.get(&fname).ok_or(libc::ENOENT)?;
        let (tdir, tname) = self.parent(to)?;
        if let Some(&old) = self.dir(tdir)?.get(&tname) {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if old == ino {
                return Ok(());
            }
            match (self.is_dir(ino), self.is_dir(old)) {
                (true, true) if !self.dir(old)?.is_empty() => return Err(libc::ENOTEMPTY),
                (true, false) => return Err(libc::ENOTDIR),
                (false, true) => return Err(libc::EISDIR),
                _ => {}
            }
        }
        self.rec(LogOp::Rename { fdir, fname, tdir, tname });
        self.touch(tdir, t);
        Ok(())
    }

    pub fn chmod(&mut self, ino: Ino, mode: u32) {
        self.rec(LogOp::Mode { ino, mode });
    }

    /// fsync of one inode: journal commit of all metadata plus this inode's data.
    pub fn fsync(&mut self, ino: Ino) {
        let log = std::mem::take(&mut self.log);
        for op in log {
            match &op {
                LogOp::Data { ino: i, .. } if *i != ino => self.log.push(op),
                _ => apply(&mut self.base, &op),
            }
        }
    }

    /// Everything written so far becomes durable (an idle system after write-back).
    pub fn settle(&mut self) {
        self.log.clear();
        self.base = self.cur.clone();
    }

    pub fn power_loss(&mut self, rnd: &mut dyn FnMut(u64) -> u64) {
        let metas = self.log.iter().filter(|o| !matches!(o, LogOp::Data { .. })).count() as u64;
        let keep = match rnd(4) {
            0 => metas,
            1 => 0,
            _ => rnd(metas + 1),
        };
        let style = rnd(4);
        let mut img = self.base.clone();
        let mut m = 0;
        for op in std::mem::take(&mut self.log) {
            match &op {
                LogOp::Data { ino, off, bytes } => {
                    let k = match style {
                        0 => 3, // no data reached the disk
                        _ => rnd(4),
                    };
                    match k {
                        0 | 1 => apply(&mut img, &op),
                        2 => {
                            let n = rnd(bytes.len() as u64 + 1) as usize;
                            apply(
                                &mut img,
                                &LogOp::Data { ino: *ino, off: *off, bytes: bytes[..n].to_vec() },
                            );
                        }
                        _ => {}
                    }
                }
                _ => {
                    if m < keep {
                        apply(&mut img, &op);
                    }
                    m += 1;
                }
            }
        }
        self.base = img.clone();
        self.cur = img;
        self.used = self.cur.values().map(|i| if let Node::File(f) = &i.node { f.len() } else { 0 }).sum();
    }

    // ---- helpers for scenarios (not visible to the code under test) ----
    pub fn mkdirs(&mut self, path: &str, t: i128) {
        let parts = Self::split(path);
        for i in 1..=parts.len() {
            let p = format!("/{}", parts[..i].join("/"));
            if self.lookup(&p, true).is_err() {
                let _ = self.create(&p, Node::Dir(BTreeMap::new()), 0o755, t);
            }
        }
    }
    pub fn put(&mut self, path: &str, data: &[u8], t: i128) {
        if let Some(i) = path.rfind('/') {
            self.mkdirs(&path[..i], t);
        }
        let ino = match self.lookup(path, true) {
            Ok(i) => i,
            Err(_) => match self.create(path, Node::File(vec![]), 0o644, t) {
                Ok(i) => i,
                Err(_) => return,
            },
        };
        if self.is_dir(ino) {
            return;
        }
        let _ = self.trunc(ino, 0, t);
        let cap = self.capacity.take();
        let _ = self.write(ino, 0, data, t);
        self.capacity = cap;
    }
    /// What an editor does: the new content is on disk when this returns.
    pub fn put_durable(&mut self, path: &str, data: &[u8], t: i128) {
        self.put(path, data, t);
        if let Ok(i) = self.lookup(path, true) {
            self.fsync(i);
        }
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.lookup(path, true).ok()?;
        self.file(i).ok().cloned()
    }
    pub fn exists(&self, path: &str) -> bool {
        self.lookup(path, false).is_ok()
    }
    pub fn remove(&mut self, path: &str, t: i128) {
        let _ = self.unlink(path, false, t);
    }
    /// All regular files below `path`, with contents, sorted.
    pub fn files(&self, path: &str) -> Vec<(String, Vec<u8>)> {
        let mut out = vec![];
        if let Ok(i) = self.lookup(path, true) {
            self.walk(path.trim_end_matches('/'), i, &mut out, false);
        }
        out
    }
    /// All paths below `path` (directories too), sorted.
    pub fn tree(&self, path: &str) -> Vec<(String, Vec<u8>)> {
        let mut out = vec![];
        if let Ok(i) = self.lookup(path, true) {
            self.walk(path.trim_end_matches('/'), i, &mut out, true);
        }
        out
    }
    fn walk(&self, p: &str, i: Ino, out: &mut Vec<(String, Vec<u8>)>, dirs: bool) {
        match &self.cur[&i].node {
            Node::File(f) => out.push((p.to_string(), f.clone())),
            Node::Symlink(t) => out.push((p.to_string(), format!("-> {t}").into_bytes())),
            Node::Dir(d) => {
                if dirs {
                    out.push((format!("{p}/"), vec![]));
                }
                for (n, j) in d {
                    self.walk(&format!("{p}/{n}"), *j, out, dirs);
                }
            }
        }
    }
}
