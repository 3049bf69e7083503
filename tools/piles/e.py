C="cli/mod.rs"
sub(C,("""    if meta_mode {
        match execute_raw_content_and_metadata(client, &input, input_format)
            .await
        {
            Ok((result, metadata)) => format::format_println(
                output_format,
                ContentAndMetadata {
                    content: match result {
                        Ok(reply) => Content::from(reply),
                        Err(x) => Content::from(Reply::from(x)),
                    },
                    metadata,
                },
                |_| Err("Unreachable".into()),
            ),
            Err(x) => format::format_println(
                output_format,
                ContentAndMetadata {
                    content: Content::from(Reply::from(x)),
                    metadata: HashMap::new(),
                },
                |_| Err("Unreachable".into()),
            ),
        }
    } else {
        match execute_raw_content(client, &input, input_format).await {
            Ok(reply) => format::format_content_println(
                output_format,
                Content::from(reply),
                |_| Err("Unreachable".into()),
            ),
            Err(x) => format::format_content_println(
                output_format,
                Content::from(Reply::from(x)),
                |_| Err("Unreachable".into()),
            ),
        }
    }
}
""","""    if !meta_mode {
        let reply = execute_raw_content(client, input, input_format)
            .await
            .unwrap_or_else(Reply::from);
        return format::format_content_println(
            output_format,
            Content::Reply(reply),
            |_| Err("Unreachable".into()),
        );
    }

    let (result, metadata) =
        match execute_raw_content_and_metadata(client, input, input_format)
            .await
        {
            Ok(x) => x,
            Err(x) => (Err(x), Metadata::new()),
        };
    let content = Content::from(result.unwrap_or_else(Reply::from));
    format::format_println(
        output_format,
        ContentAndMetadata { content, metadata },
        |_| Err("Unreachable".into()),
    )
}
"""),("""    let mut exit_instant: Option<Instant> = None;

    // Continue running as long as we haven't exceeded our post-exit duration
    // after the remote process exited
    while exit_instant
        .map(|inst| inst.elapsed() < post_exit_duration)
        .unwrap_or(true)
    {
""","""    let mut exit_instant: Option<Instant> = None;

    loop {
        if let Some(inst) = exit_instant {
            if inst.elapsed() >= post_exit_duration {
                return Ok(());
            }
        }

"""),("""                exit_instant = Some(Instant::now());
            }
        }
    }

    Ok(())
}
""","""                exit_instant = Some(Instant::now());
            }
        }
    }
}
"""),("""            match handle.read_line(&mut line) {
                Ok(_) => (),
                Err(x) if x.kind() == io::ErrorKind::WouldBlock => (),
                Err(x) => return Err(x.into()),
            }
""","""            if let Err(x) = handle.read_line(&mut line) {
                if x.kind() != io::ErrorKind::WouldBlock {
                    return Err(Box::new(x));
                }
            }
"""),("""                client
                    .ask_write_proc_stdin(&proc, &line.into_bytes())
                    .await?;
""","""                client.ask_write_proc_stdin(&proc, line.as_bytes()).await?;
"""),("""    match content {
        Content::Request(x) => Ok(client.ask(x).await?),
        x => Err(format!("Unexpected input: {:?}", x).into()),
    }
""","""    let request = match content {
        Content::Request(request) => request,
        x => return Err(format!("Unexpected input: {:?}", x).into()),
    };
    client.ask(request).await.map_err(Into::into)
"""))
rsub(C,r"                Ok\(x\.entries\n.*?\.join\(\"\\n\"\)\),","                Ok(human_entries(&x.entries)),",2)
s=open(W+"/src/"+C).read()
s+='''
fn human_entries(entries: &[crate::core::reply::DirEntry]) -> String {
    let mut text = String::new();
    for (i, e) in entries.iter().enumerate() {
        if i > 0 {
            text.push('\\n');
        }
        text.push_str(&format!(
            "[{}{}{}] {}",
            if e.is_file { "F" } else { "" },
            if e.is_dir { "D" } else { "" },
            if e.is_symlink { "S" } else { "" },
            e.path,
        ));
    }
    text
}
'''
open(W+"/src/"+C,"w").write(s)
sub("core/msg/content/request/transform.rs",("""        for rule in self.rules.iter() {
            // For now, we're assuming that the replacement value must be
            // a singular value (not replacing with an array, object, etc)
            let mut new_values = jsonpath::select(&reply_value, &rule.value)
                .map_err(TransformRequestError::ExtractingReplyValueFailed)?;
            if new_values.is_empty() {
                return Err(TransformRequestError::ReplyValueMissing {
                    path: rule.value.clone(),
                });
            } else if new_values.len() > 1 {
                return Err(TransformRequestError::ReplyValueNotScalar {
                    path: rule.value.clone(),
                });
            }
            let new_value = new_values.drain(0..=0).last();

            value = jsonpath::replace_with(value, &rule.path, &mut |_| {
                new_value.cloned()
            })
            .map_err(TransformRequestError::ReplacementFailed)?;
        }
""","""        for TransformRule { path, value: from } in &self.rules {
            let new_values = jsonpath::select(&reply_value, from)
                .map_err(TransformRequestError::ExtractingReplyValueFailed)?;
            let new_value = match new_values.as_slice() {
                [] => {
                    return Err(TransformRequestError::ReplyValueMissing {
                        path: from.clone(),
                    })
                }
                [x] => *x,
                _ => {
                    return Err(TransformRequestError::ReplyValueNotScalar {
                        path: from.clone(),
                    })
                }
            };

            value = jsonpath::replace_with(value, path, &mut |_| {
                Some(new_value.clone())
            })
            .map_err(TransformRequestError::ReplacementFailed)?;
        }
"""))
sub("cli/format.rs",("""    let text = match format_option {
        FormatOption::Json => serde_json::to_string(&serializable_data)?,

        #[cfg(feature = "format-sexpression")]
        FormatOption::Sexpression => {
            serde_lexpr::to_string(&serializable_data)?
        }

        FormatOption::Human => fallback(serializable_data)?,
    };

    Ok(text)
""","""    match format_option {
        FormatOption::Human => fallback(serializable_data),
        FormatOption::Json => {
            serde_json::to_string(&serializable_data).map_err(Box::from)
        }

        #[cfg(feature = "format-sexpression")]
        FormatOption::Sexpression => {
            let text = serde_lexpr::to_string(&serializable_data)?;
            Ok(text)
        }
    }
"""),("""    let text = format(format_option, serializeable_data, fallback)?;

    println!("{}", text);

    Ok(())
""","""    format(format_option, serializeable_data, fallback)
        .map(|text| println!("{}", text))
"""),("        FormatOption::Json => Ok(serde_json::from_str(text)?),","        FormatOption::Json => serde_json::from_str(text).map_err(Into::into),"))
sub("utils/delay.rs",("""            let mut timeout_remaining = timeout;
            loop {
                thread::park_timeout(timeout_remaining);
                let elapsed = start_time.elapsed();
                if elapsed >= timeout || should_cancel_2.load(Ordering::Acquire)
                {
                    break;
                }
                timeout_remaining = timeout - elapsed;
            }

            if !should_cancel_2.load(Ordering::Acquire) {
                f();
            }
""","""            let mut timeout_remaining = timeout;
            loop {
                thread::park_timeout(timeout_remaining);
                if should_cancel_2.load(Ordering::SeqCst) {
                    return;
                }
                match timeout.checked_sub(start_time.elapsed()) {
                    Some(remaining) if remaining > Duration::from_secs(0) => {
                        timeout_remaining = remaining
                    }
                    _ => break,
                }
            }

            f();
"""),("self.should_cancel.store(true, Ordering::Release)","self.should_cancel.store(true, Ordering::SeqCst)"))
sub("core/transport/crypto/key.rs",("""        if slice.len() == KeySize::Key128Bits.size_in_bytes() {
            slice.try_into().map(Self::Key128Bits).ok()
        } else if slice.len() == KeySize::Key256Bits.size_in_bytes() {
            slice.try_into().map(Self::Key256Bits).ok()
        } else if slice.len() == KeySize::Key512Bits.size_in_bytes() {
            // NOTE: 64-byte array requires special handling due to
            //       limitations in rust right now
            let mut key = [0; 64];
            key.copy_from_slice(slice);
            Some(Self::Key512Bits(key))
        } else {
            None
        }
""","""        match slice.len() {
            16 => slice.try_into().ok().map(Self::Key128Bits),
            32 => slice.try_into().ok().map(Self::Key256Bits),
            64 => {
                let mut key = [0; 64];
                key.copy_from_slice(slice);
                Some(Self::from(key))
            }
            _ => None,
        }
"""))
sub("core/transport/auth/digest.rs",("""        if value.len() == 32 {
            let mut buf: Digest256Bits = [0; 32];
            buf.copy_from_slice(value);
            Ok(From::from(buf))
        } else if value.len() == 64 {
            let mut buf: Digest512Bits = [0; 64];
            buf.copy_from_slice(value);
            Ok(From::from(buf))
        } else {
            Err("Invalid slice length")
        }
""","""        match value.len() {
            32 => {
                let mut buf = [0u8; 32];
                buf.copy_from_slice(value);
                Ok(Self::Digest256Bits(buf))
            }
            64 => {
                let mut buf = [0u8; 64];
                buf.copy_from_slice(value);
                Ok(Self::Digest512Bits(buf))
            }
            _ => Err("Invalid slice length"),
        }
"""))
sub("core/event/tcp.rs",("""        let stream = connections.lock().await.get(&addr).cloned();
        if let Some(mut stream) = stream {
            if stream.send(msg).await.is_err() {
                error!("Failed to send to {}", addr);
            }
        }
""","""        let mut stream = match lookup(&connections, &addr).await {
            Some(stream) => stream,
            None => continue,
        };
        if let Err(_) = stream.send(msg).await {
            error!("Failed to send to {}", addr);
        }
"""),("""/// Loops continuously accepting new connections and spawning EventManager
""","""async fn lookup(
    connections: &Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>,
    addr: &SocketAddr,
) -> Option<mpsc::Sender<Vec<u8>>> {
    let connections = connections.lock().await;
    connections.get(addr).map(|tx| tx.clone())
}

/// Loops continuously accepting new connections and spawning EventManager
"""),("""    loop {
        match listener.accept().await {
            Ok((stream, addr)) => {
                handle.spawn(tcp_listener_spawn_stream(
                    stream,
                    addr,
                    handle.clone(),
                    wire.clone(),
                    Arc::clone(&connections),
                    on_inbound_tx.clone(),
                    max_outbound_queue,
                ));
            }
            Err(x) => {
                error!("Listening for connections encountered error: {}", x);
                break;
            }
        }
    }
""","""    let failure = loop {
        let (stream, addr) = match listener.accept().await {
            Ok(x) => x,
            Err(x) => break x,
        };
        handle.spawn(tcp_listener_spawn_stream(
            stream,
            addr,
            handle.clone(),
            wire.clone(),
            Arc::clone(&connections),
            on_inbound_tx.clone(),
            max_outbound_queue,
        ));
    };
    error!("Listening for connections encountered error: {}", failure);
"""))
sub("core/event/udp.rs",("""    loop {
        let tx_2 = tx.clone();
        let result = reader.read().await;
        if !super::process_inbound(result, tx_2, on_inbound_tx.clone()).await {
            break;
        }
    }
""","""    let mut keep_going = true;
    while keep_going {
        let result = reader.read().await;
        keep_going = super::process_inbound(
            result,
            tx.clone(),
            on_inbound_tx.clone(),
        )
        .await;
    }
"""))
sub("core/transport/wire/output/encoder.rs",("""            let data_size = if can_fit_all_in_final_packet {
                final_max_data_size
            } else if can_fit_all_in_not_final_packet {
                remaining_data_size - 1
            } else {
                not_final_max_data_size
            };

            // Ensure data section size does not exceed our remaining data
            let data_size = std::cmp::min(data_size, remaining_data_size);
""","""            let data_size = match (
                can_fit_all_in_final_packet,
                can_fit_all_in_not_final_packet,
            ) {
                (true, _) => final_max_data_size.min(remaining_data_size),
                (false, true) => remaining_data_size - 1,
                (false, false) => not_final_max_data_size,
            };
"""),("""        while i < data.len() {
""","""        loop {
            if i >= data.len() {
                break;
            }

"""),("""        if let Some(value) = self.max_data_size_cache.get(&key) {
            return Ok(*value);
        }
""","""        if let Some(&value) = self.max_data_size_cache.get(&key) {
            return Ok(value);
        }
"""))
sub("core/server/fs/dir.rs",("""    let metadata = fs::metadata(from.as_ref()).await?;

    if metadata.is_dir() {
        fs::rename(from, to).await
    } else {
        Err(io::Error::new(io::ErrorKind::Other, "Not a directory"))
    }
""","""    match fs::metadata(&from).await {
        Err(x) => Err(x),
        Ok(md) if !md.is_dir() => {
            Err(io::Error::new(io::ErrorKind::Other, "Not a directory"))
        }
        Ok(_) => fs::rename(from, to).await,
    }
"""),("""    let mut entries = Vec::new();
    let mut dir_stream = fs::read_dir(path).await?;
    while let Some(entry) = dir_stream.next_entry().await? {
        let file_type = entry.file_type().await?;
        entries.push(LocalDirEntry {
            path: entry.path(),
            is_file: file_type.is_file(),
            is_dir: file_type.is_dir(),
            is_symlink: file_type.is_symlink(),
        });
    }
    Ok(entries)
""","""    let mut dir_stream = fs::read_dir(path).await?;
    let mut entries = vec![];
    loop {
        match dir_stream.next_entry().await? {
            Some(entry) => entries.push(local_entry(&entry).await?),
            None => return Ok(entries),
        }
    }
}

async fn local_entry(entry: &fs::DirEntry) -> io::Result<LocalDirEntry> {
    let path = entry.path();
    let kind = entry.file_type().await?;
    let (is_file, is_dir) = (kind.is_file(), kind.is_dir());
    let is_symlink = kind.is_symlink();
    Ok(LocalDirEntry {
        path,
        is_file,
        is_dir,
        is_symlink,
    })
"""),("""    if non_empty {
        fs::remove_dir_all(path).await
    } else {
        fs::remove_dir(path).await
    }
""","""    match non_empty {
        false => fs::remove_dir(path).await,
        true => fs::remove_dir_all(path).await,
    }
"""))
sub("core/server/action/mod.rs",("""                    let results: Vec<Reply> =
                        join_all(args.operations.drain(..).map(|req| {
                            Handle::current().spawn(route_and_execute(
                                Arc::clone(&state),
                                req,
                                max_depth - 1,
                            ))
                        }))
                        .await
                        .drain(..)
                        .map(|r| {
                            r.unwrap_or_else(|x| {
                                Reply::Error(From::from(format!("{}", x)))
                            })
                        })
                        .map(into_nested_reply)
                        .collect();
                    Reply::Batch(reply::BatchArgs { results })
""","""                    let handle = Handle::current();
                    let mut running = Vec::new();
                    for req in args.operations.drain(..) {
                        running.push(handle.spawn(route_and_execute(
                            state.clone(),
                            req,
                            max_depth - 1,
                        )));
                    }
                    let mut results = Vec::new();
                    for result in join_all(running).await {
                        let reply = match result {
                            Ok(reply) => reply,
                            Err(x) => {
                                Reply::Error(ReplyError::from(x.to_string()))
                            }
                        };
                        results.push(into_nested_reply(reply));
                    }
                    Reply::Batch(reply::BatchArgs { results })
"""),("""    match reply {
        Reply::Ignore => {
            Reply::Error(ReplyError::from("Request does not have a reply"))
        }
        x => x,
    }
""","""    if let Reply::Ignore = reply {
        return Reply::Error(ReplyError::from("Request does not have a reply"));
    }
    reply
"""))
