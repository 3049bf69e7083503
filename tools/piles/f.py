K="core/client/connected.rs"
rsub(K,r"        let result = self\s*\.ask\((Request::\w+\((?:[^;]*?)\))\)\s*\.await;\n\n        if let Err\(x\) = result \{\n            return Err\(From::from\(x\)\);\n        \}\n\n        match result\.unwrap\(\) \{\n            Reply::(\w+)\(args\) => Ok\(args\),\n            x => Err\((make_\w+)\(x\)\),\n        \}\n",
 r"""        self.ask_for(
            \1,
            |reply| match reply {
                Reply::\2(args) => Ok(args),
                x => Err(x),
            },
            \3,
        )
        .await
""")
rsub(K,r"        let result = self\s*\.ask\((Request::\w+\((?:[^;]*?)\))\)\s*\.await;\n\n        if let Err\(x\) = result \{\n            return Err\(From::from\(x\)\);\n        \}\n\n        match result\.unwrap\(\) \{\n            Reply::(\w+)\(args\) => \{\n                file.sig = args.sig;\n                Ok\(args\)\n            \}\n            x => Err\((make_\w+)\(x\)\),\n        \}\n",
 r"""        let args = self
            .ask_for(
                \1,
                |reply| match reply {
                    Reply::\2(args) => Ok(args),
                    x => Err(x),
                },
                \3,
            )
            .await?;
        file.sig = args.sig;
        Ok(args)
""")
sub(K,("""    /// Sends a msg to the server, not expecting a response
""","""    async fn ask_for<T, E>(
        &mut self,
        request: Request,
        pick: impl FnOnce(Reply) -> Result<T, Reply>,
        fail: fn(Reply) -> E,
    ) -> Result<T, E>
    where
        E: From<AskError>,
    {
        let reply = self.ask(request).await?;
        pick(reply).map_err(fail)
    }

    /// Sends a msg to the server, not expecting a response
"""))
M="core/server/action/mod.rs"
rsub(M,r"Request::(\w+)\(args\) => (?:\{\s*)?handler::(\w+)::(\w+)\(state, &args\)\s*\.await\s*\.map\(Reply::(\w+)\)\s*\.unwrap_or_else\(Reply::from\)(?:\s*\})?(,?)",
 r"Request::\1(args) => into_reply(handler::\2::\3(state, &args).await, Reply::\4),")
sub(M,("""/// Nested replies are identified""","""fn into_reply<T, E>(result: Result<T, E>, success: fn(T) -> Reply) -> Reply
where
    Reply: From<E>,
{
    match result {
        Ok(x) => success(x),
        Err(x) => Reply::from(x),
    }
}

fn encode_reply(
    reply: Reply,
    parent_header: Header,
) -> Result<Vec<u8>, ActionError> {
    Msg::new(Content::Reply(reply), Some(parent_header))
        .to_vec()
        .map_err(ActionError::MsgError)
}

/// Nested replies are identified"""))
rsub(M,r"        let new_msg = Msg::new\(Content::Reply\(reply\), Some\(parent_header\)\);\n        let data = new_msg.to_vec\(\).map_err\(ActionError::MsgError\)\?;\n","        let data = encode_reply(reply, parent_header)?;\n")
S="core/server/state.rs"
sub(S,("""            let expired = v.has_expired();

            if expired {
                let handle = fsm.get(**v).map(|f| f.handle());

                if let Some(h) = handle {
                    if let Err(x) = fsm.close_file(h) {
                        error!("Failed to evict file {}: {}", **v, x);
                    }
                }
            }

            !expired
        });
""","""            if !v.has_expired() {
                return true;
            }

            evict_file(&mut fsm, **v);
            false
        });
"""),("""            let expired = v.has_expired();

            if expired {
                if let Some(mut proc) = proc_map.remove(&**v) {
                    if let Err(x) = proc.kill() {
                        error!("Failed to kill proc {}: {}", **v, x);
                    }
                }
            }

            !expired
        });
""","""            let keep = !v.has_expired();
            let removed = if keep { None } else { proc_map.remove(&**v) };
            if let Some(Err(x)) = removed.map(|mut proc| proc.kill()) {
                error!("Failed to kill proc {}: {}", &**v, x);
            }
            keep
        });
"""),("""impl Default for ServerState {
""","""fn evict_file(fsm: &mut FileSystemManager, id: u32) {
    let handle = match fsm.get(id) {
        Some(file) => file.handle(),
        None => return,
    };
    if let Err(x) = fsm.close_file(handle) {
        error!("Failed to evict file {}: {}", id, x);
    }
}

impl Default for ServerState {
"""))
F="core/server/fs/file.rs"
rsub(F,r"            \.map_err\(LocalFileError::IoError\)\?",r"            .map_err(io_failure)?",4)
sub(F,("impl LocalFile {\n","""fn io_failure(x: io::Error) -> LocalFileError {
    LocalFileError::IoError(x)
}

impl LocalFile {
"""))
D="core/transport/wire/input/decoder.rs"
sub(D,("    packets: HashMap<u32, Packet>,","    packets: std::collections::BTreeMap<u32, Packet>,"),
("            packets: HashMap::new(),\n            final_index","            packets: Default::default(),\n            final_index"),
("""        // Grab the appropriate group, which we can now assume exists
        let group = self.packet_groups.get(&group_id.into()).unwrap();

        // Gather references to packets in proper order
        let mut packets = group.packets.values().collect::<Vec<&Packet>>();
        packets.sort_unstable_by_key(|p| p.index());

        // Collect packet data into one unified binary representation
        // TODO: Improve by NOT cloning data
        Ok(packets.iter().flat_map(|p| p.data().clone()).collect())
""","""        let group = match self.packet_groups.get(&group_id.into()) {
            Some(group) => group,
            None => return Err(DecoderError::IncompletePacketCollection),
        };

        let mut data = Vec::new();
        for packet in group.packets.values() {
            data.extend_from_slice(packet.data());
        }
        Ok(data)
"""))
V="core/server/mod.rs"
sub(V,("""    while state.is_running() {
        state.evict_files().await;
        state.evict_procs().await;
        time::delay_for(period).await;
    }
""","""    loop {
        if !state.is_running() {
            return;
        }
        evict(&state).await;
        time::delay_for(period).await;
    }
"""),("""async fn cleanup_loop(""","""async fn evict(state: &state::ServerState) {
    state.evict_files().await;
    state.evict_procs().await;
}

async fn cleanup_loop("""))
rsub(V,r"        if let Err\(x\) = (action::Executor::<\(Vec<u8>, SocketAddr\)>::new)\(\n            tx,\n            addr,\n            (.*?),\n        \)\n        \.execute\(Arc::clone\(&state\), msg\)\n        \.await\n        \{\n            error!\(\"Failed to execute action: \{\}\", x\);\n        \}\n",
r"""        let executor = \1(
            tx,
            addr,
            \2,
        );
        match executor.execute(state.clone(), msg).await {
            Ok(()) => (),
            Err(x) => error!("Failed to execute action: {}", x),
        }
""")
for f in ("aes_gcm_128","aes_gcm_256","aes_gcm_siv_128","aes_gcm_siv_256","aes_siv_128","aes_siv_256"):
    f="core/transport/crypto/aes/"+f+".rs"
    rsub(f,r"        let nonce = associated_data\n.*?super::make_error_string\(x\)\)\)\n    \}\n\n    /// Returns",r"        super::seal(&*INNER, self.nonce_size, buffer, associated_data)\n    }\n\n    /// Returns",1)
    rsub(f,r"        let nonce = associated_data\n.*?super::make_error_string\(x\)\)\)\n    \}\n\}\n",r"        super::unseal(&*INNER, self.nonce_size, buffer, associated_data)\n    }\n}\n",1)
    s=open(W+"/src/"+f).read(); s=s.replace("&*INNER","&*self.inner" if "inner: Arc<" in s else "&self.inner").replace("use aead::{Aead, NewAead};","use aead::NewAead;"); open(W+"/src/"+f,"w").write(s)
s=open(W+"/src/core/transport/crypto/aes/mod.rs").read()
s+='''
use super::{nonce, AssociatedData, CryptError};
use aead::{generic_array::GenericArray, Aead};

fn checked_nonce(
    nonce_size: nonce::NonceSize,
    associated_data: &AssociatedData,
) -> Result<&[u8], CryptError> {
    let nonce = associated_data
        .nonce_slice()
        .ok_or(CryptError::MissingNonce)?;
    nonce::validate_nonce_size(nonce_size, nonce.len()).map(|_| nonce)
}

fn seal<C: Aead>(
    cipher: &C,
    nonce_size: nonce::NonceSize,
    buffer: &[u8],
    associated_data: &AssociatedData,
) -> Result<Vec<u8>, CryptError> {
    let nonce = checked_nonce(nonce_size, associated_data)?;
    cipher
        .encrypt(GenericArray::from_slice(nonce), buffer)
        .map_err(|x| CryptError::EncryptFailed(make_error_string(x)))
}

fn unseal<C: Aead>(
    cipher: &C,
    nonce_size: nonce::NonceSize,
    buffer: &[u8],
    associated_data: &AssociatedData,
) -> Result<Vec<u8>, CryptError> {
    let nonce = checked_nonce(nonce_size, associated_data)?;
    cipher
        .decrypt(GenericArray::from_slice(nonce), buffer)
        .map_err(|x| CryptError::DecryptFailed(make_error_string(x)))
}
'''
open(W+"/src/core/transport/crypto/aes/mod.rs","w").write(s)
U="core/event/udp.rs"
rsub(U,r"        let \(tx, rx\) =\n            mpsc::channel::<\(Vec<u8>, SocketAddr\)>\(max_outbound_queue\);\n.*?            tx,\n        \}\n","        spawn_loops(handle, max_outbound_queue, reader, writer, on_inbound_tx)\n",2)
sub(U,("async fn udp_socket_outbound_loop<S, E>(","""fn spawn_loops<V, D, S, E>(
    handle: Handle,
    max_outbound_queue: usize,
    reader: UdpSocketInboundWire<V, D>,
    writer: UdpSocketOutboundWire<S, E>,
    on_inbound_tx: mpsc::Sender<(
        Msg,
        SocketAddr,
        mpsc::Sender<(Vec<u8>, SocketAddr)>,
    )>,
) -> AddrEventManager
where
    V: Verifier + Send + Sync + 'static,
    D: Decrypter + Send + Sync + 'static,
    S: Signer + Send + Sync + 'static,
    E: Encrypter + Send + Sync + 'static,
{
    let (tx, rx) = mpsc::channel(max_outbound_queue);
    let inbound = udp_socket_inbound_loop(tx.clone(), reader, on_inbound_tx);
    let outbound = udp_socket_outbound_loop(rx, writer);
    AddrEventManager {
        inbound_handle: handle.spawn(inbound),
        outbound_handle: handle.spawn(outbound),
        tx,
    }
}

async fn udp_socket_outbound_loop<S, E>("""))
