//! Virtual read-only files under /sim/ with injectable read faults.
use crate::kernel::*;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Fs {
    pub files: BTreeMap<String, Vec<u8>>,
    open: BTreeMap<i32, (String, usize)>,
    next: i32,
}
pub const FILE_FD0: i32 = 100_000;
type R<T> = Result<T, i32>;

impl Kernel {
    fn file_fault(&mut self, kind: Kd) {
        let tid = self.cur;
        self.with_world(|w, k| w.fault(k, kind, tid, FaultPeer::File));
    }
    pub fn sys_open(&mut self, path: &str) -> R<i32> {
        let v = self.choose(Kd::OpenErr, 5);
        if v > 0 {
            let e = [0, libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT][v as usize];
            self.file_fault(Kd::OpenErr);
            return Err(e);
        }
        if self.choose(Kd::FileEintr, 2) == 1 {
            self.nontrivial = true;
            return Err(libc::EINTR);
        }
        if !self.fs.files.contains_key(path) {
            return Err(libc::ENOENT);
        }
        self.fs.next += 1;
        let fd = FILE_FD0 + self.fs.next;
        self.fs.open.insert(fd, (path.to_string(), 0));
        Ok(fd)
    }
    pub fn sys_file_read(&mut self, fd: i32, buf: &mut [u8]) -> R<usize> {
        if self.choose(Kd::FileEintr, 2) == 1 {
            self.nontrivial = true;
            return Err(libc::EINTR);
        }
        let v = self.choose(Kd::ReadErr, 3);
        if v > 0 {
            self.file_fault(Kd::ReadErr);
            return Err([0, libc::EIO, libc::EBADF][v as usize]);
        }
        let Some((path, pos)) = self.fs.open.get(&fd).cloned() else { return Err(libc::EBADF) };
        let avail = self.fs.files[&path].len().saturating_sub(pos);
        let mut n = avail.min(buf.len());
        let v = self.choose(Kd::FileShort, 6);
        if v > 0 && n > 1 {
            self.nontrivial = true;
            n = [n, 1, 2, n / 2, n - 1, 5][v as usize].clamp(1, n);
        }
        buf[..n].copy_from_slice(&self.fs.files[&path][pos..pos + n]);
        self.fs.open.get_mut(&fd).unwrap().1 += n;
        Ok(n)
    }
    pub fn sys_file_size(&mut self, fd: i32) -> R<u64> {
        let Some((path, _)) = self.fs.open.get(&fd) else { return Err(libc::EBADF) };
        Ok(self.fs.files[path].len() as u64)
    }
    pub fn sys_file_seek(&mut self, fd: i32, off: i64, whence: i32) -> R<i64> {
        let Some((path, pos)) = self.fs.open.get_mut(&fd) else { return Err(libc::EBADF) };
        let len = self.fs.files[path].len() as i64;
        let np = match whence {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => *pos as i64 + off,
            libc::SEEK_END => len + off,
            _ => return Err(libc::EINVAL),
        };
        if np < 0 {
            return Err(libc::EINVAL);
        }
        *pos = np as usize;
        Ok(np)
    }
    pub fn sys_file_close(&mut self, fd: i32) -> bool {
        self.fs.open.remove(&fd).is_some()
    }
    pub fn is_file(&self, fd: i32) -> bool {
        self.fs.open.contains_key(&fd)
    }
}
