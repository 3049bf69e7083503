D="core/transport/wire/input/decoder.rs"
sub(D,("""        // Check if we are adding a final packet when we already have one
        if let Some(last_index) = group.final_index {
            if is_final {
                return Err(DecoderError::FinalPacketAlreadyExists {
                    id,
                    index: last_index,
                });
            }
        }

        // Check if we are trying to add a packet beyond the final one
        if group.final_index.map(|i| index > i).unwrap_or(false) {
            return Err(DecoderError::PacketBeyondLastIndex { id, index });
        }

        // Check if we are adding a final packet when we already have a packet
        // that would be beyond it
        if is_final {
            if let Some(i) = group.packets.keys().find(|i| **i > index) {
                return Err(DecoderError::PacketBeyondLastIndex {
                    id,
                    index: *i,
                });
            }
        }
""","""        match group.final_index {
            Some(last_index) if is_final => {
                return Err(DecoderError::FinalPacketAlreadyExists {
                    id,
                    index: last_index,
                })
            }
            Some(last_index) if last_index < index => {
                return Err(DecoderError::PacketBeyondLastIndex { id, index })
            }
            _ => {}
        }

        if is_final {
            let beyond = group.packets.keys().copied().find(|&i| i > index);
            if let Some(index) = beyond {
                return Err(DecoderError::PacketBeyondLastIndex { id, index });
            }
        }
"""),("""        group.packets.insert(index, packet);
        if is_final {
            group.final_index = Some(index);
        }
""","""        if is_final {
            group.final_index.replace(index);
        }
        group.packets.insert(index, packet);
"""),("""            .and_then(|g| {
                let total_packets = g.packets.len() as u64;
                g.final_index.map(|i| u64::from(i) + 1 == total_packets)
            })
            .unwrap_or_default()
""","""            .map_or(false, |g| match g.final_index {
                Some(i) => g.packets.len() as u64 == 1 + i as u64,
                None => false,
            })
"""))
I="core/transport/wire/input/mod.rs"
sub(I,("""        let p = Packet::from_slice(data)
            .map_err(InputProcessorError::EncodePacket)?;

        // Verify the packet's signature, skipping any form of assembly if
        // it is not a legit packet
        if !verify_packet(&self.verifier, &p)? {
            return Err(InputProcessorError::InvalidPacketSignature);
        }

        let group_id = p.id();

        // Ensure that packet groups are still valid
        self.decoder.remove_expired();

        // Add the packet, see if we are ready to decode the data, and do so
        let do_decode = add_packet_and_verify(&mut self.decoder, p)?;
        if do_decode {
""","""        self.decoder.remove_expired();
        let packet = self.parse_verified(data)?;
        let group_id = packet.id();

        // Add the packet, see if we are ready to decode the data, and do so
        self.decoder
            .add_packet(packet)
            .map_err(InputProcessorError::DecodeData)?;
        if !self.decoder.verify(group_id) {
            return Ok(None);
        }
        {
"""),("""            Ok(Some(result?))
        } else {
            Ok(None)
        }
    }
}
""","""            result.map(Some)
        }
    }

    fn parse_verified(
        &self,
        data: &[u8],
    ) -> Result<Packet, InputProcessorError> {
        let packet = match Packet::from_slice(data) {
            Ok(packet) => packet,
            Err(x) => return Err(InputProcessorError::EncodePacket(x)),
        };

        match verify_packet(&self.verifier, &packet) {
            Ok(true) => Ok(packet),
            Ok(false) => Err(InputProcessorError::InvalidPacketSignature),
            Err(x) => Err(x),
        }
    }
}
"""))
rsub(I,r"/// Adds the packet to our internal cache and.*?\n}\n","",1)
O="core/transport/wire/output/mod.rs"
sub(O,("""        let associated_data = self.encrypter.new_encrypt_associated_data();
        let encryption = PacketEncryption::from(associated_data.clone());
        let data = self
            .encrypter
            .encrypt(data, &associated_data)
            .map_err(OutputProcessorError::EncryptData)?;

        // Produce a unique id used to group our packets
        let id: u32 = Self::new_id();
""","""        let id = Self::new_id();
        let (data, encryption) = self.encrypt(data)?;
"""),("""        let mut output = Vec::new();
        for packet in packets.iter() {
            let packet_data = packet
                .to_vec()
                .map_err(OutputProcessorError::DecodePacket)?;
            output.push(packet_data);
        }

        Ok(output)
    }
""","""        packets
            .into_iter()
            .map(|packet| {
                packet.to_vec().map_err(OutputProcessorError::DecodePacket)
            })
            .collect()
    }

    fn encrypt(
        &self,
        data: &[u8],
    ) -> Result<(Vec<u8>, PacketEncryption), OutputProcessorError> {
        let associated_data = self.encrypter.new_encrypt_associated_data();
        match self.encrypter.encrypt(data, &associated_data) {
            Ok(data) => Ok((data, PacketEncryption::from(associated_data))),
            Err(x) => Err(OutputProcessorError::EncryptData(x)),
        }
    }
"""))
sub("core/transport/wire/udp.rs",("""        let mut buf =
            vec![0; self.inbound_wire.transmission_size()].into_boxed_slice();
        let (size, addr) = self
            .socket
            .recv_from(&mut buf)
            .await
            .map_err(InboundWireError::IO)?;
        let data = self.inbound_wire.process(&buf[..size])?;

        Ok((data, addr))
""","""        let mut buf = vec![0u8; self.inbound_wire.transmission_size()];
        let (size, addr) = match self.socket.recv_from(&mut buf[..]).await {
            Ok(x) => x,
            Err(x) => return Err(InboundWireError::IO(x)),
        };
        buf.truncate(size);

        self.inbound_wire.process(&buf).map(|data| (data, addr))
"""))
sub("core/transport/wire/tcp.rs",("""        let mut buf =
            vec![0; self.inbound_wire.transmission_size()].into_boxed_slice();
        let size = self
            .stream
            .read(&mut buf)
            .await
            .map_err(InboundWireError::IO)?;

        // Reading nothing means that the remote side closed the stream
        if size == 0 {
            return Err(InboundWireError::IO(
                io::ErrorKind::UnexpectedEof.into(),
            ));
        }

        let data = self.inbound_wire.process(&buf[..size])?;

        Ok((data, self.remote_addr))
""","""        let mut buf = vec![0u8; self.inbound_wire.transmission_size()];
        match self.stream.read(&mut buf).await {
            Err(x) => Err(InboundWireError::IO(x)),
            Ok(0) => Err(InboundWireError::IO(io::Error::from(
                io::ErrorKind::UnexpectedEof,
            ))),
            Ok(size) => {
                let data = self.inbound_wire.process(&buf[..size])?;
                Ok((data, self.remote_addr))
            }
        }
"""))
sub("core/transport/crypto/aes/aes_gcm_256.rs",("""        let nonce = associated_data
            .nonce_slice()
            .ok_or(CryptError::MissingNonce)?;
        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;
        self.inner
            .encrypt(GenericArray::from_slice(nonce), buffer)
            .map_err(|x| CryptError::EncryptFailed(super::make_error_string(x)))
""","""        let nonce = self.checked_nonce(associated_data)?;
        match self.inner.encrypt(GenericArray::from_slice(nonce), buffer) {
            Ok(data) => Ok(data),
            Err(x) => {
                Err(CryptError::EncryptFailed(super::make_error_string(x)))
            }
        }
"""),("""        let nonce = associated_data
            .nonce_slice()
            .ok_or(CryptError::MissingNonce)?;
        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;
""","""        let nonce = self.checked_nonce(associated_data)?;
"""),("""            nonce_size: NonceSize::Nonce96Bits,
        }
    }
""","""            nonce_size: NonceSize::Nonce96Bits,
        }
    }

    fn checked_nonce<'a>(
        &self,
        associated_data: &'a AssociatedData,
    ) -> Result<&'a [u8], CryptError> {
        match associated_data.nonce_slice() {
            None => Err(CryptError::MissingNonce),
            Some(nonce) => {
                nonce::validate_nonce_size(self.nonce_size, nonce.len())?;
                Ok(nonce)
            }
        }
    }
"""))
sub("core/transport/crypto/aes/aes_siv_256.rs",("""        let key = GenericArray::clone_from_slice(key);
        Aes256SivBicrypter {
            inner: Arc::new(Aes256SivAead::new(key)),
            nonce_size: NonceSize::Nonce128Bits,
        }
""","""        let inner = Aes256SivAead::new(GenericArray::clone_from_slice(&key[..]));
        Self {
            nonce_size: NonceSize::Nonce128Bits,
            inner: Arc::new(inner),
        }
"""))
sub("core/transport/crypto/nonce/mod.rs",("""    if desired_size != nonce_size.size_in_bytes() {
        return Err(CryptError::NonceWrongSize {
            provided_size: desired_size,
        });
    }

    Ok(())
""","""    if desired_size == nonce_size.size_in_bytes() {
        Ok(())
    } else {
        Err(CryptError::NonceWrongSize {
            provided_size: desired_size,
        })
    }
"""),("""    rand::thread_rng().gen::<Nonce128Bits>()
""","""    let mut nonce = [0; 16];
    rand::thread_rng().fill(&mut nonce);
    nonce
"""))
P="core/server/proc.rs"
sub(P,("""        match self.exit_status {
            None => {
                let exit_status =
                    poll_fn(|ctx| match Pin::new(&mut self.inner).poll(ctx) {
                        Poll::Ready(res) => Poll::Ready(Some(res)),
                        Poll::Pending => Poll::Ready(None),
                    })
                    .await;

                if let Some(status) = exit_status {
                    self.exit_status = Some(ExitStatus {
                        id: self.id,
                        is_success: status
                            .as_ref()
                            .map(|s| s.success())
                            .unwrap_or(false),
                        exit_code: status.ok().and_then(|s| s.code()),
                    });
                }

                self.exit_status
            }
            x => x,
        }
""","""        if self.exit_status.is_some() {
            return self.exit_status;
        }

        let id = self.id;
        let inner = &mut self.inner;
        let result = poll_fn(|ctx| {
            Poll::Ready(match Pin::new(&mut *inner).poll(ctx) {
                Poll::Ready(res) => Some(res),
                Poll::Pending => None,
            })
        })
        .await?;
        let status = match result {
            Ok(status) => ExitStatus {
                id,
                is_success: status.success(),
                exit_code: status.code(),
            },
            Err(_) => ExitStatus {
                id,
                is_success: false,
                exit_code: None,
            },
        };
        self.exit_status = Some(status);
        Some(status)
"""),("""        let mut result = stdin.write_all(buf).await;""","""        let mut result = stdin.write_all(buf).await;""") if False else ("""                let mut result = stdin.write_all(buf).await;
                if result.is_ok() {
                    result = stdin.flush().await;
                }
                result
""","""                stdin.write_all(buf).await?;
                stdin.flush().await
"""),("""        if self.supports_stdout {
            Ok(self.stdout_buf.lock().await.drain(..).collect())
        } else {
            Err(io::Error::from(io::ErrorKind::BrokenPipe))
        }
""","""        if !self.supports_stdout {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let mut buf = self.stdout_buf.lock().await;
        Ok(std::mem::take(&mut *buf))
"""),("""        if self.supports_stderr {
            Ok(self.stderr_buf.lock().await.drain(..).collect())
        } else {
            Err(io::Error::from(io::ErrorKind::BrokenPipe))
        }
""","""        if !self.supports_stderr {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let mut buf = self.stderr_buf.lock().await;
        let out = buf.to_vec();
        buf.clear();
        Ok(out)
"""),("""        self.kill()?;
        self.inner.wait_with_output().await
    }
}
""","""        let Self { mut inner, .. } = self;
        inner.kill()?;
        inner.wait_with_output().await
    }
}

/// Appends everything the reader produces to the buffer
async fn pump<R>(reader: Option<R>, output: Arc<Mutex<Vec<u8>>>, name: &str)
where
    R: tokio::io::AsyncRead + Unpin,
{
    use tokio::io::AsyncReadExt;

    let mut reader = match reader {
        Some(reader) => reader,
        None => return,
    };
    let mut buf = [0u8; 1024];
    loop {
        let size = match reader.read(&mut buf[..]).await {
            Ok(0) => return,
            Ok(size) => size,
            Err(x) => {
                error!("{} reader died: {}", name, x);
                return;
            }
        };
        let mut output = output.lock().await;
        output.extend_from_slice(&buf[..size]);
    }
}
"""))
rsub(P,r"let _ = tokio::join!\(\n.*?\n            \);\n","tokio::join!(\n                pump(stdout, stdout_buf, \"stdout\"),\n                pump(stderr, stderr_buf, \"stderr\"),\n            );\n",1)
H="core/server/action/handler/proc.rs"
sub(H,("""    match state.procs.lock().await.get_mut(&args.id) {
        Some(local_proc) => {
            local_proc.write_stdin(&args.input).await?;
            Ok(ProcStdinWrittenArgs { id: args.id })
        }
        None => Err(IoErrorArgs::invalid_proc_id(args.id).into()),
    }
""","""    let mut procs = state.procs.lock().await;
    let local_proc = procs
        .get_mut(&args.id)
        .ok_or_else(|| -> io::Error { IoErrorArgs::invalid_proc_id(args.id).into() })?;
    local_proc.write_stdin(&args.input).await?;
    Ok(ProcStdinWrittenArgs { id: args.id })
"""),("""        Some(local_proc) => match local_proc.read_stdout().await {
            Ok(output) => Ok(ProcStdoutContentsArgs {
                id: args.id,
                output,
            }),
            Err(x) if x.kind() == io::ErrorKind::WouldBlock => {
                Ok(ProcStdoutContentsArgs {
                    id: args.id,
                    output: vec![],
                })
            }
            Err(x) => Err(x),
        },
""","""        Some(local_proc) => {
            let output = none_if_blocked(local_proc.read_stdout().await)?;
            Ok(ProcStdoutContentsArgs {
                id: args.id,
                output,
            })
        }
"""),("""        Some(local_proc) => match local_proc.read_stderr().await {
            Ok(output) => Ok(ProcStderrContentsArgs {
                id: args.id,
                output,
            }),
            Err(x) if x.kind() == io::ErrorKind::WouldBlock => {
                Ok(ProcStderrContentsArgs {
                    id: args.id,
                    output: vec![],
                })
            }
            Err(x) => Err(x),
        },
""","""        Some(local_proc) => {
            let output = none_if_blocked(local_proc.read_stderr().await)?;
            Ok(ProcStderrContentsArgs {
                id: args.id,
                output,
            })
        }
"""),("""    match state.procs.lock().await.get_mut(&args.id) {
        Some(local_proc) => match local_proc.exit_status().await {
            Some(exit_status) => {
                // Process is now dead, so we want to touch with a smaller
                // cleanup TTL while still allowing this to be polled
                state
                    .touch_proc_id_with_ttl(args.id, state.dead_proc_ttl)
                    .await;

                Ok(ProcStatusArgs {
                    id: args.id,
                    is_alive: false,
                    exit_code: exit_status.exit_code,
                })
            }
            None => Ok(ProcStatusArgs {
                id: args.id,
                is_alive: true,
                exit_code: None,
            }),
        },
        None => Err(IoErrorArgs::invalid_proc_id(args.id).into()),
    }
""","""    let status = match state.procs.lock().await.get_mut(&args.id) {
        Some(local_proc) => local_proc.exit_status().await,
        None => return Err(IoErrorArgs::invalid_proc_id(args.id).into()),
    };

    if status.is_some() {
        state
            .touch_proc_id_with_ttl(args.id, state.dead_proc_ttl)
            .await;
    }

    Ok(ProcStatusArgs {
        id: args.id,
        is_alive: status.is_none(),
        exit_code: status.and_then(|s| s.exit_code),
    })
"""),("""    match removed {
        // NOTE: We are killing and then WAITING for the process to die, which
        //       would block, but seems to be required in order to properly
        //       have the process clean up -- try_wait doesn't seem to work
        Some(local_proc) => {
            let output = local_proc.kill_and_wait().await?;
            state.remove_proc_id(args.id).await;

            // TODO: Send stdout/stderr msgs for any remaining content
            Ok(ProcKilledArgs {
                id: args.id,
                exit_code: output.status.code(),
            })
        }
        None => Err(IoErrorArgs::invalid_proc_id(args.id).into()),
    }
}
""","""    let local_proc = match removed {
        Some(local_proc) => local_proc,
        None => return Err(IoErrorArgs::invalid_proc_id(args.id).into()),
    };

    let status = local_proc.kill_and_wait().await?.status;
    state.remove_proc_id(args.id).await;
    Ok(ProcKilledArgs {
        id: args.id,
        exit_code: status.code(),
    })
}

fn none_if_blocked(result: io::Result<Vec<u8>>) -> io::Result<Vec<u8>> {
    match result {
        Err(x) if x.kind() == io::ErrorKind::WouldBlock => Ok(Vec::new()),
        x => x,
    }
}
"""),("""    let make_pipe = |yes| if yes { Stdio::piped() } else { Stdio::null() };

    let mut cmd = Command::new(command);
    cmd.args(args)
        .stdin(make_pipe(*stdin))
        .stdout(make_pipe(*stdout))
        .stderr(make_pipe(*stderr))
        .kill_on_drop(true);

    // If provided a directory to change to, set that with the command
    if let Some(dir) = current_dir {
        // NOTE: It is recommended to canonicalize the path before applying
        //       it to ensure that it is absolute as platforms can apply
        //       relative or absolute differently otherwise
        let dir = tokio::fs::canonicalize(dir).await?;
        cmd.current_dir(dir);
    }

    let child = cmd.spawn()?;
    let local_proc = LocalProc::new(child).spawn();
    let id = local_proc.id();
    state.procs.lock().await.insert(id, local_proc);
    state.touch_proc_id(id).await;
    Ok(ProcStartedArgs { id })
}
""","""    let mut cmd = Command::new(command);
    for arg in args {
        cmd.arg(arg);
    }
    if let Some(dir) = current_dir.as_ref() {
        cmd.current_dir(tokio::fs::canonicalize(dir).await?);
    }
    cmd.kill_on_drop(true);
    cmd.stdin(make_pipe(*stdin));
    cmd.stdout(make_pipe(*stdout));
    cmd.stderr(make_pipe(*stderr));

    let local_proc = LocalProc::new(cmd.spawn()?).spawn();
    Ok(ProcStartedArgs {
        id: register(&state, local_proc).await,
    })
}

fn make_pipe(yes: bool) -> Stdio {
    match yes {
        true => Stdio::piped(),
        false => Stdio::null(),
    }
}

async fn register(state: &ServerState, local_proc: LocalProc) -> u32 {
    let id = local_proc.id();
    let mut procs = state.procs.lock().await;
    procs.insert(id, local_proc);
    drop(procs);
    state.touch_proc_id(id).await;
    id
}
"""))
