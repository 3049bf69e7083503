H="core/server/action/handler/fs.rs"
sub(H,("""    let handle = state
        .fs_manager
        .lock()
        .await
        .open_file(
            &args.path,
            args.create_if_missing,
            args.write_access,
            args.read_access,
        )
        .await?;

    state.touch_file_id(handle.id).await;

    Ok(FileOpenedArgs {
        id: handle.id,
        sig: handle.sig,
        path: args.path.clone(),
        read: args.read_access,
        write: args.write_access,
    })
""","""    let OpenFileArgs {
        path,
        create_if_missing,
        write_access,
        read_access,
    } = args;
    let (create, write, read) = (*create_if_missing, *write_access, *read_access);

    let mut fs_manager = state.fs_manager.lock().await;
    let opened = fs_manager.open_file(path, create, write, read).await;
    drop(fs_manager);

    let LocalFileHandle { id, sig } = opened?;
    state.touch_file_id(id).await;

    Ok(FileOpenedArgs {
        id,
        sig,
        path: path.to_string(),
        read,
        write,
    })
"""),("""    match state.fs_manager.lock().await.get_mut(args.id) {
        Some(local_file) => match local_file.rename(args.sig, &args.to).await {
            Ok(_) => Ok(FileRenamedArgs {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),
        },
        None => Err(FileIoError::Io(
            IoErrorArgs::invalid_file_id(args.id).into(),
        )),
    }
""","""    let mut fs_manager = state.fs_manager.lock().await;
    let local_file = fs_manager
        .get_mut(args.id)
        .ok_or_else(|| unknown_file(args.id))?;
    let result = local_file.rename(args.sig, &args.to).await;
    let LocalFileHandle { id, sig } = local_file.handle();
    result.map_err(|x| file_io_error(id, sig, x))?;
    Ok(FileRenamedArgs { id, sig })
"""),("""        Some(local_file) => match local_file.read_all(args.sig).await {
            Ok(contents) => Ok(FileContentsArgs {
                id: args.id,
                contents,
            }),
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),
        },
        None => Err(FileIoError::Io(
            IoErrorArgs::invalid_file_id(args.id).into(),
        )),
    }
""","""        Some(local_file) => {
            let result = local_file.read_all(args.sig).await;
            let contents = result
                .map_err(|x| file_io_error(args.id, local_file.sig(), x))?;
            Ok(FileContentsArgs {
                contents,
                id: args.id,
            })
        }
        None => Err(unknown_file(args.id)),
    }
"""),("""    let mut fs_manager = state.fs_manager.lock().await;
    match fs_manager.get_mut(args.id) {
        Some(local_file) => match local_file.remove(args.sig).await {
            Ok(_) => {
                let handle = local_file.handle();

                // The file no longer exists, so do not keep it open
                let _ = fs_manager.close_file(handle);
                drop(fs_manager);

                state.remove_file_id(args.id).await;
                Ok(FileRemovedArgs {
                    id: handle.id,
                    sig: handle.sig,
                })
            }
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),
        },
        None => Err(FileIoError::Io(
            IoErrorArgs::invalid_file_id(args.id).into(),
        )),
    }
""","""    let handle = {
        let mut fs_manager = state.fs_manager.lock().await;
        let local_file = match fs_manager.get_mut(args.id) {
            Some(x) => x,
            None => return Err(unknown_file(args.id)),
        };
        if let Err(x) = local_file.remove(args.sig).await {
            return Err(file_io_error(args.id, local_file.sig(), x));
        }

        let handle = local_file.handle();
        let _ = fs_manager.close_file(handle);
        handle
    };

    state.remove_file_id(handle.id).await;
    Ok(FileRemovedArgs {
        id: handle.id,
        sig: handle.sig,
    })
"""),("""    let local_entries = state
        .fs_manager
        .lock()
        .await
        .dir_entries(&args.path)
        .await?;

    let entries = local_entries
        .into_iter()
        .map(DirEntry::try_from)
        .collect::<io::Result<Vec<DirEntry>>>()?;
""","""    let fs_manager = state.fs_manager.lock().await;
    let mut entries = Vec::new();
    for entry in fs_manager.dir_entries(&args.path).await? {
        entries.push(DirEntry::try_from(entry)?);
    }
"""),("""        Ok(Self {
            path: local_dir_entry
                .path
                .into_os_string()
                .into_string()
                .map_err(|_| {
                    io::Error::new(
                        io::ErrorKind::InvalidData,
                        "OS String does not contain valid unicode",
                    )
                })?,
            is_file: local_dir_entry.is_file,
            is_dir: local_dir_entry.is_dir,
            is_symlink: local_dir_entry.is_symlink,
        })
    }
}
""","""        let LocalDirEntry {
            path,
            is_file,
            is_dir,
            is_symlink,
            ..
        } = local_dir_entry;

        match path.to_str() {
            Some(path) => Ok(Self {
                path: path.to_owned(),
                is_file,
                is_dir,
                is_symlink,
            }),
            None => Err(io::Error::new(
                io::ErrorKind::InvalidData,
                "OS String does not contain valid unicode",
            )),
        }
    }
}

fn unknown_file(id: u32) -> FileIoError {
    FileIoError::Io(IoErrorArgs::invalid_file_id(id).into())
}

fn file_io_error(id: u32, sig: u32, error: LocalFileError) -> FileIoError {
    match error {
        LocalFileError::SigMismatch => FileIoError::SigMismatch { id, sig },
        LocalFileError::IoError(x) => FileIoError::Io(x),
    }
}
"""))
M="core/server/action/mod.rs"
rsub(M,r"\.map\(Reply::(\w+)\)\s*\.unwrap_or_else\(Reply::from\)",r".map_or_else(Reply::from, Reply::\1)",6)
sub(M,("""        let header = msg.header.clone();
        let origin_sender = self.origin_sender;
        let addr = origin_sender.addr;

        let reply = validate_route_and_execute(
            state,
            msg.content,
            addr,
            self.max_depth,
        )
        .await?;

        match reply {
            Reply::Ignore => Ok(()),
            _ => Self::respond(reply, header, origin_sender).await,
        }
""","""        let Msg {
            header, content, ..
        } = msg;
        let Self {
            origin_sender,
            max_depth,
        } = self;
        let addr = origin_sender.addr;

        let reply =
            validate_route_and_execute(state, content, addr, max_depth).await?;
        if let Reply::Ignore = reply {
            return Ok(());
        }

        Self::respond(reply, header, origin_sender).await
"""),("""    let request = content
        .into_request()
        .ok_or(ActionError::UnexpectedContent)?;
    update_origin_last_touched""","""    let request = match content {
        Content::Request(request) => request,
        _ => return Err(ActionError::UnexpectedContent),
    };
    update_origin_last_touched"""),("""    async move {
        if max_depth == 0 {
            Reply::Error(ReplyError::from("Reached maximum nested depth"))
        } else {
            match request {
""","""    async move {
        if max_depth < 1 {
            return Reply::Error(ReplyError::from("Reached maximum nested depth"));
        }
        {
            match request {
"""),("""                    let mut results: Vec<Reply> = vec![];
                    for op in args.operations.drain(..) {
""","""                    let mut results = Vec::with_capacity(args.operations.len());
                    for op in std::mem::take(&mut args.operations) {
"""))
B="cli/builder/mod.rs"
s=open(W+"/src/"+B).read()
kinds=["None","Aes128Gcm","Aes128GcmSiv","Aes256Gcm","Aes256GcmSiv","Aes128Siv","Aes256Siv"]
def table(fn):
    return """    let authenticator = auth::Authenticator::new(
        cmd.opts.authentication,
        cmd.opts.authentication_key.clone(),
    )?;
    match authenticator {
        auth::Authenticator::None(a) => %s(cmd, a).await,
        auth::Authenticator::Sha256(a) => %s(cmd, a).await,
        auth::Authenticator::Sha512(a) => %s(cmd, a).await,
    }
}

async fn %s<A>(cmd: &CMD, a: A) -> io::Result<OUT>
where
    A: Authenticator + Send + Sync + Clone + Default + 'static,
{
    let bicrypter = crypto::Bicrypter::new(
        cmd.opts.encryption,
        cmd.opts.encryption_key.as_ref().cloned(),
    )?;
    match bicrypter {
%s    }
}
"""
for side,out,bld in (("client","ConnectedClient","build_client_and_connect"),("server","ListeningServer",None)):
    Sd=side.capitalize()
    if not bld: bld=re.search(r"async fn (build_server\w*)",s).group(1)
    arms="".join("        crypto::Bicrypter::%s(b) => {\n            %s(cmd, a, b).await\n        }\n"%(k,bld) for k in kinds)
    t="with_"+side+"_auth"
    body=(table(0)%(t,t,t,t,arms)).replace("CMD",Sd+"Command").replace("OUT",out)
    s,k=re.subn(r"(pub async fn start_%s\(cmd: &%sCommand\) -> io::Result<%s> \{\n).*?\n\}\n"%(side,Sd,out),lambda m:m.group(1)+body,s,count=1,flags=re.S); print(side,k)
open(W+"/src/"+B,"w").write(s)
sub(B,("""    let addrs = maybe_resolved_addr.map(|x| vec![x]).unwrap_or_default();
""","""    let addrs: Vec<_> = maybe_resolved_addr.into_iter().collect();
"""))
sub("cli/builder/auth.rs",("""                Self::Sha256(auth::Sha256Authenticator::new(
                    key.ok_or(new_missing_key_error())?.as_bytes(),
                ))
""","""                let key = match key {
                    Some(key) => key,
                    None => return Err(new_missing_key_error()),
                };
                Self::Sha256(auth::Sha256Authenticator::new(key.as_bytes()))
"""),("key.ok_or(new_missing_key_error())?.as_bytes()","&key.ok_or_else(new_missing_key_error)?.into_bytes()"))
sub("cli/builder/crypto.rs",("""        let empty_str = String::new();
        if let Some($key_enum(key)) =
            Key::from_slice($key_str.as_ref().unwrap_or(&empty_str).as_bytes())
        {
            Ok(key)
        } else {
            Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "Provided encryption key not right length",
            ))
        }
""","""        match $key_str.as_ref().and_then(|k| Key::from_slice(k.as_bytes())) {
            Some($key_enum(key)) => Ok(key),
            _ => Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "Provided encryption key not right length",
            )),
        }
"""))
C="cli/mod.rs"
sub(C,("""    if opts.encryption != opts::types::Encryption::None
        && opts.encryption_key.is_none()
    {
        return Err(io::Error::new(
            io::ErrorKind::InvalidInput,
            format!(
                "Wanted {:?} encryption, but did not provide a key!",
                opts.encryption
            ),
        ));
    }
""","""    match (opts.encryption, &opts.encryption_key) {
        (opts::types::Encryption::None, _) | (_, Some(_)) => {}
        (kind, None) => {
            return Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                format!(
                    "Wanted {:?} encryption, but did not provide a key!",
                    kind
                ),
            ))
        }
    }
"""),("""async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
    match path {
        Some(p) => {
            use tokio::io::AsyncWriteExt;
            let mut file = tokio::fs::OpenOptions::new()
                .create(true)
                .append(true)
                .open(p)
                .await?;
            file.write_all(text.as_bytes()).await?;

            // NOTE: Without flushing, the text may not have been written yet
            //       (and may never be) once we are done
            file.flush().await
        }
        None => {
            print!("{}", text);
            Ok(())
        }
    }
}
""","""async fn append(text: &str, path: &PathBuf) -> io::Result<()> {
    use tokio::io::AsyncWriteExt;
    let mut options = tokio::fs::OpenOptions::new();
    options.append(true).create(true);
    let mut file = options.open(path).await?;
    file.write_all(text.as_bytes()).await?;
    file.flush().await
}

async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
    if let Some(path) = path {
        return append(&text, path).await;
    }
    print!("{}", text);
    Ok(())
}
"""),("""            let mut file = client.ask_open_file(c.path.clone()).await?.into();
            let x = client
                .ask_write_file(&mut file, c.contents.as_ref())
                .await?;
""","""            let opened = client.ask_open_file(c.path.clone()).await?;
            let mut file = crate::core::RemoteFile::from(opened);
            let contents = c.contents.as_bytes();
            let x = client.ask_write_file(&mut file, contents).await?;
"""),("""                    line.clear();
""","""                    line = String::new();
"""))
