# server state, open files
sub("core/server/state.rs",("""        self.file_ids.lock().await.retain(|v| {
            let expired = v.has_expired();

            if expired {
                let handle = fsm.get(**v).map(|f| f.handle());

                if let Some(h) = handle {
                    if let Err(x) = fsm.close_file(h) {
                        error!("Failed to evict file {}: {}", **v, x);
                    }
                }
            }

            !expired
        });""","""        let mut ids = self.file_ids.lock().await;
        let expired: Vec<u32> =
            ids.iter().filter(|v| v.has_expired()).map(|v| **v).collect();
        for id in expired {
            if let Some(handle) = fsm.get(id).map(|f| f.handle()) {
                if let Err(x) = fsm.close_file(handle) {
                    error!("Failed to evict file {}: {}", id, x);
                }
            }
            ids.remove(&TtlValue::from(id));
        }"""),("""        self.proc_ids.lock().await.retain(|v| {
            let expired = v.has_expired();

            if expired {
                if let Some(mut proc) = proc_map.remove(&**v) {
                    if let Err(x) = proc.kill() {
                        error!("Failed to kill proc {}: {}", **v, x);
                    }
                }
            }

            !expired
        });""","""        let mut ids = self.proc_ids.lock().await;
        let mut expired = Vec::new();
        for v in ids.iter() {
            if v.has_expired() {
                expired.push(v.value);
            }
        }
        for id in &expired {
            ids.remove(&TtlValue::from(*id));
            match proc_map.remove(id).map(|mut proc| proc.kill()) {
                Some(Err(x)) => error!("Failed to kill proc {}: {}", id, x),
                _ => {}
            }
        }"""))
sub("utils/ttl.rs",("self.last_touched.elapsed().checked_sub(self.ttl).is_some()","self.last_touched.elapsed() >= self.ttl"))
sub("core/server/fs/mod.rs",("""        for f in self.files.values() {
            if f.path().starts_with(path.as_ref()) {
                return Err(io::Error::new(
                    io::ErrorKind::InvalidData,
                    format!(
                        "File at {:?} is open and must be closed",
                        f.path()
                    ),
                ));
            }
        }

        Ok(())
""","""        let open = self
            .files
            .values()
            .map(LocalFile::path)
            .find(|p| p.starts_with(path.as_ref()));

        match open {
            None => Ok(()),
            Some(p) => Err(io::Error::new(
                io::ErrorKind::InvalidData,
                format!("File at {:?} is open and must be closed", p),
            )),
        }
"""),("""        let mut new_permissions = LocalFilePermissions { read, write };
        let mut maybe_id_and_sig = None;
""",""),("""        let search =
            self.files.values_mut().find(|f| f.path() == path.as_path());
""","""        let existing = self
            .files
            .values()
            .find(|f| f.path() == path)
            .map(|f| (f.handle(), f.permissions()));
"""),("""        if let Some(file) = search {
            let id = file.id();
            let sig = file.sig();
            let permissions = file.permissions();

            // We already have read permission or are not asking for it and
            // we already have write permission or are not asking for it
            if (permissions.read || !read) && (permissions.write || !write) {
                return Ok(file.handle());
            } else {
                // Otherwise, we now need to open a new file pointer with the
                // proper permissions to support both cases and, if successful,
                // close the existing file
                new_permissions.read = permissions.read || read;
                new_permissions.write = permissions.write || write;
                maybe_id_and_sig = Some((id, sig));
            }
        }

        // Open the file with the specified path
        let mut new_file = LocalFile::open(
            path,
            create,
            new_permissions.write,
            new_permissions.read,
        )
        .await?;

        // If we already had a file open with this path, we want to assign
        // the previously-used id and sig
        if let Some((id, sig)) = maybe_id_and_sig {
            new_file.id = id;
            new_file.sig = sig;
        }
""","""        let (write, read) = match existing {
            None => (write, read),
            Some((handle, held)) => {
                let merged = LocalFilePermissions {
                    write: held.write | write,
                    read: held.read | read,
                };
                if merged == held {
                    return Ok(handle);
                }
                (merged.write, merged.read)
            }
        };

        let mut new_file = LocalFile::open(path, create, write, read).await?;

        if let Some((LocalFileHandle { id, sig }, _)) = existing {
            new_file.id = id;
            new_file.sig = sig;
        }
"""),("""        match self.files.entry(handle.id) {
            Entry::Occupied(x) if x.get().sig == handle.sig => Ok(x.remove()),
            Entry::Occupied(_) => Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                format!("Signature invalid for file with id {}", handle.id),
            )),
            Entry::Vacant(_) => Err(io::Error::new(
                io::ErrorKind::NotFound,
                format!("No open file with id {}", handle.id),
            )),
        }
""","""        let not_found = || {
            io::Error::new(
                io::ErrorKind::NotFound,
                format!("No open file with id {}", handle.id),
            )
        };
        let current = self.files.get(&handle.id).ok_or_else(not_found)?.sig;
        if current != handle.sig {
            return Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                format!("Signature invalid for file with id {}", handle.id),
            ));
        }
        self.files.remove(&handle.id).ok_or_else(not_found)
"""),("use std::collections::{hash_map::Entry, HashMap};","use std::collections::HashMap;"),("""        match self.files.get_mut(&id.into()) {
            Some(file) => Some(file),
            None => None,
        }""","        self.files.get_mut(&id.into())"),("""        match self.files.get(&id.into()) {
            Some(file) => Some(file),
            None => None,
        }""","        self.files.get(&id.into())"))
rsub("core/server/fs/file.rs", r"        if self.sig != sig \{\n            return Err\(LocalFileError::SigMismatch\);\n        \}\n", "        self.ensure_sig(sig)?;\n")
rsub("core/server/fs/file.rs", r"self\.sig = OsRng\.next_u32\(\);", "self.renew_sig();")
sub("core/server/fs/file.rs",("    pub async fn rename(\n        &mut self,","""    fn ensure_sig(&self, sig: u32) -> Result<()> {
        match sig == self.sig {
            true => Ok(()),
            false => Err(LocalFileError::SigMismatch),
        }
    }

    fn renew_sig(&mut self) -> u32 {
        let sig = OsRng.next_u32();
        std::mem::replace(&mut self.sig, sig)
    }

    pub async fn rename(
        &mut self,"""),("""        match OpenOptions::new()
            .create(create)
            .write(write)
            .read(read)
            .open(&path)
            .await
        {
            Ok(file) => {
                let cpath = fs::canonicalize(path).await?;
                let permissions = LocalFilePermissions { write, read };
                Ok(Self::new(file, permissions, cpath))
            }
            Err(x) => Err(x),
        }
""","""        let path = path.as_ref();
        let permissions = LocalFilePermissions { write, read };
        let mut options = OpenOptions::new();
        options.read(permissions.read);
        options.write(permissions.write);
        options.create(create);

        let file = options.open(path).await?;
        fs::canonicalize(path)
            .await
            .map(|path| Self::new(file, permissions, path))
"""),("""    let metadata = fs::metadata(from.as_ref()).await?;

    if metadata.is_file() {
        fs::rename(from.as_ref(), to.as_ref()).await
    } else {
        Err(io::Error::new(io::ErrorKind::Other, "Not a file"))
    }
""","""    let (from, to) = (from.as_ref(), to.as_ref());
    if !fs::metadata(from).await?.is_file() {
        return Err(io::Error::new(io::ErrorKind::Other, "Not a file"));
    }
    fs::rename(from, to).await
"""),("""        self.path = fs::canonicalize(to.as_ref())
            .await
            .unwrap_or_else(|_| to.as_ref().to_path_buf());
""","""        self.path = match fs::canonicalize(to.as_ref()).await {
            Ok(path) => path,
            Err(_) => to.as_ref().into(),
        };
"""))
